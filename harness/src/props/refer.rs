//! Arbitrary texts against the independent reading of `reference`.

use super::*;
use crate::reference::{self, Outcome, ANY};
use crate::rng::Rng;
use crate::{gen, mutate, uri, wire};

/// Which side of the verdict a family is about.
#[derive(Clone, Copy, PartialEq)]
pub enum Side {
    /// C02: conforming texts are accepted with their contents
    Accept,
    /// C10: loose parsing keeps the conforming lines
    Loose,
    /// C12: strict parsing refuses with the error of the fault
    Refuse,
    /// C13: the items of a stream
    Stream,
}

/// An IPv6 address has many spellings.
fn plain_uri(u: &str) -> String {
    let u = uri::canonical(u);
    if let Some((a, rest)) = u.split_once("://") {
        let end = rest.find(['/', '?', '#']).unwrap_or(rest.len());
        let auth = &rest[..end];
        if let (Some(x), Some(y)) = (auth.find('['), auth.rfind(']')) {
            if let Ok(v6) = auth[x + 1..y].parse::<std::net::Ipv6Addr>() {
                return format!(
                    "{a}://{}[{v6}]{}{}",
                    &auth[..x],
                    &auth[y + 1..],
                    &rest[end..]
                );
            }
        }
    }
    u
}

fn canonical(mut c: MCard) -> MCard {
    for p in &mut c {
        match &mut p.val {
            MVal::Uri(u) | MVal::PidMap(_, u) => *u = plain_uri(u),
            _ => {}
        }
        if let Some(q) = &mut p.params {
            if let Some(g) = &mut q.geo {
                *g = plain_uri(g);
            }
            if let Some(MTz::Uri(u)) = &mut q.tz {
                *u = plain_uri(u);
            }
        }
    }
    c
}

/// Lines taken apart and put together again in other ways.
pub fn remix(r: &mut Rng) -> String {
    remix_of(r, &[])
}

/// Mostly lines of the properties in `names`, if there are any.
fn remix_of(r: &mut Rng, names: &[&str]) -> String {
    let n = if names.is_empty() { r.range(1, 3) } else { 1 };
    let st = wire::Style {
        folds: false,
        ..wire::Style::random(r)
    };
    let mut pool: Vec<String> = Vec::new();
    for _ in 0..n {
        let mut c = gen::card(r);
        c.truncate(12);
        pool.extend(wire::card_lines(r, &st, &c).into_iter().filter(|l| {
            !matches!(
                &l.to_ascii_uppercase()[..],
                "BEGIN:VCARD" | "END:VCARD" | "VERSION:4.0" | "VERSION:3.0"
            )
        }));
    }
    for _ in 0..if names.is_empty() { 0 } else { r.range(8, 16) } {
        let density = r.below(4);
        let name = r.of(names);
        let p = gen::prop(r, name, density);
        pool.push(wire::line(r, &st, &p));
    }
    for _ in 0..r.range(1, 4) {
        if r.chance(1, if names.is_empty() { 2 } else { 8 }) {
            let k = r.below(super::faults::FAULTS);
            pool.push(super::faults::bad(r, k).line);
        }
    }
    for _ in 0..r.range(0, 12) {
        let (i, j) = (r.below(pool.len()), r.below(pool.len()));
        let (a, b) = (cut(&pool[i]), cut(&pool[j]));
        let pick = |r: &mut Rng, x: &[String]| -> Option<String> {
            (!x.is_empty()).then(|| r.of(x).clone())
        };
        let mut x = a.clone();
        match r.below(9) {
            0 => x.0 = b.0,
            1 | 2 => x.2 = b.2,
            3 => x.1 = b.1,
            4 => {
                if let Some(p) = pick(r, &b.1) {
                    let at = r.below(x.1.len() + 1);
                    x.1.insert(at, p);
                }
            }
            5 => {
                if !x.1.is_empty() {
                    let at = r.below(x.1.len());
                    x.1.remove(at);
                }
            }
            6 => {
                let v = r.of(&VALUES);
                x.1.retain(|p| !p.to_ascii_uppercase().starts_with("VALUE="));
                if r.chance(7, 8) {
                    x.1.push(format!("VALUE={v}"));
                }
            }
            7 => x.2 = mutate::value(r),
            _ => {
                let sep = *r.of(&[",", ";", "\\,", "\\;", "\\n", "\\\\"]);
                x.2 = format!("{}{sep}{}", x.2, b.2);
            }
        }
        let mut l = x.0;
        for p in &x.1 {
            l.push(';');
            l.push_str(p);
        }
        pool[i] = format!("{l}:{}", x.2);
    }
    let cards = r.range(1, 3);
    let mut out = Vec::new();
    for _ in 0..cards {
        if r.chance(31, 32) {
            out.push("BEGIN:VCARD".to_string());
        }
        if r.chance(31, 32) {
            out.push(format!("VERSION:{}.0", r.of(&["3", "4"])));
        }
        if r.chance(15, 16) {
            let t = gen::text(r);
            out.push(format!("FN:{}", wire::esc(r, &wire::PLAIN, &t, "")));
        }
        let k = r.range(0, 5);
        for _ in 0..k {
            out.push(r.of(&pool).clone());
        }
        if r.chance(1, 4) {
            out.push("KIND:group".into());
        }
        if r.chance(1, 24) {
            out.push(String::new());
        }
        if r.chance(23, 24) {
            out.push("END:VCARD".into());
        }
    }
    let st = wire::Style::random(r);
    let mut s = wire::physical(r, &st, &out);
    if r.chance(1, 16) {
        mutate::edit(r, &mut s);
    }
    s
}

/// Head, parameters and value of a line.
fn cut(l: &str) -> (String, Vec<String>, String) {
    let mut parts = vec![String::new()];
    let mut quoted = false;
    let mut it = l.char_indices();
    let mut value = String::new();
    for (i, c) in it.by_ref() {
        match c {
            '"' => {
                quoted = !quoted;
                parts.last_mut().unwrap().push(c);
            }
            ';' if !quoted => parts.push(String::new()),
            ':' if !quoted => {
                value = l[i + 1..].to_string();
                break;
            }
            _ => parts.last_mut().unwrap().push(c),
        }
    }
    let head = parts.remove(0);
    (head, parts, value)
}

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0..=5 => remix(r),
        6 | 7 => {
            let st = wire::Style::random(r);
            let mut cards = gen::cards(r);
            cards.truncate(3);
            let mut s = wire::document(r, &st, &cards);
            for _ in 0..r.range(1, 3) {
                mutate::edit(r, &mut s);
            }
            s
        }
        8 => mutate::mutated(r),
        _ => mutate::soup(r),
    }
}

/// What the library made of the card and what is known about it.
fn agrees(
    cx: &mut Cx,
    got: &Result<vcard4::Vcard, vcard4::Error>,
    o: &Outcome,
    input: &str,
    how: &str,
) -> R {
    match (got, &o.fails) {
        (Ok(c), Some(e)) => {
            return fail(
                "text that does not conform was accepted",
                input,
                format!("{how}: expected one of {e:?}\n  observed {:?}", dump(c)),
            )
        }
        (Ok(c), None) => {
            let keep = |c: MCard| -> MCard {
                c.into_iter()
                    .filter(|p| !o.open.contains(&p.name))
                    .collect()
            };
            let seen = keep(canonical(dump(c)));
            let want = keep(canonical(sorted(o.card.clone())));
            if let Some(d) = diff(&[want], &[seen]) {
                return fail(
                    "contents are not those of the text",
                    input,
                    format!("{how}: {d}"),
                );
            }
            cx.add("properties compared", o.good);
            cx.count("cards accepted and compared");
            if o.bad > 0 {
                cx.count("cards with lines that had to be dropped");
            }
            if o.open.is_empty() {
                cx.count("cards settled in every line");
            }
        }
        (Err(e), Some(set)) => {
            let v = variant(e);
            if !set.contains(ANY) && !set.contains(&v[..]) {
                return fail(
                    "refused with an error that is not of the fault",
                    input,
                    format!("{how}: expected one of {set:?}, observed {e:?}"),
                );
            }
            cx.count("cards refused as expected");
            if !set.contains(ANY) {
                cx.count(&format!("refused with {v}"));
            }
        }
        (Err(e), None) => {
            if !o.may_fail {
                return fail(
                    "conforming text was refused",
                    input,
                    format!("{how}: observed {e:?}\n  expected {:?}", o.card),
                );
            }
            cx.count("cards refused where this is not settled");
        }
    }
    Ok(())
}

/// Every card of the text; parsing as a whole stops at the first error.
fn whole(cx: &mut Cx, input: &str, strict: bool) -> R {
    let how = if strict { "parse" } else { "parse_loose" };
    let plain = reference::unfold(input);
    let got = if strict {
        vcard4::parse(input)
    } else {
        vcard4::parse_loose(input)
    };
    let mut pos = 0;
    let mut n = 0;
    let mut doubt = false;
    let cards = got.as_ref().map(|c| c.len()).ok();
    loop {
        let Some(at) = reference::begin(&plain, pos) else {
            break;
        };
        // text behind the end of a card on the same line
        if at == pos
            && at > 0
            && !plain[..at].ends_with('\n')
            && plain[at..]
                .get(..5)
                .is_some_and(|s| s.eq_ignore_ascii_case("BEGIN"))
        {
            cx.count("texts not settled");
            return Ok(());
        }
        let o = reference::card(&plain, at, strict);
        match &got {
            Ok(l) => {
                let Some(c) = l.get(n) else {
                    return fail(
                        "cards are missing",
                        input,
                        format!("{how}: card {n} of {cards:?}: {o:?}"),
                    );
                };
                // an owned result for the comparison
                let c: Result<vcard4::Vcard, vcard4::Error> = Ok(c.clone());
                agrees(cx, &c, &o, input, how)?;
            }
            Err(e) => {
                if let Some(set) = &o.fails {
                    let v = variant(e);
                    if !doubt && !set.contains(ANY) && !set.contains(&v[..]) {
                        return fail(
                            "refused with an error that is not of the fault",
                            input,
                            format!("{how}: card {n}: expected one of {set:?}, observed {e:?}"),
                        );
                    }
                    cx.count("texts refused as expected");
                    if !doubt && !set.contains(ANY) {
                        cx.count(&format!("refused with {v}"));
                    }
                    return Ok(());
                }
                doubt |= o.may_fail;
            }
        }
        n += 1;
        pos = o.end.unwrap();
    }
    match got {
        Ok(l) => {
            if l.len() != n || n == 0 {
                return fail(
                    "number of cards",
                    input,
                    format!("{how}: expected {n}, observed {}", l.len()),
                );
            }
            cx.count("texts accepted and compared");
        }
        Err(e) => {
            if n == 0 {
                if variant(&e) != "TokenExpected" {
                    return fail("error of an empty text", input, format!("{how}: {e:?}"));
                }
                cx.count("texts refused as expected");
            } else if !doubt {
                return fail(
                    "conforming text was refused",
                    input,
                    format!("{how}: {e:?}"),
                );
            } else {
                cx.count("cards refused where this is not settled");
            }
        }
    }
    Ok(())
}

/// The items of the iterator one by one.
fn items(cx: &mut Cx, input: &str, strict: bool) -> R {
    let how = if strict {
        "iter, strict"
    } else {
        "iter, loose"
    };
    let plain = reference::unfold(input);
    let mut it = vcard4::iter(input, strict);
    let mut pos = 0;
    let mut n = 0u64;
    loop {
        let at = reference::begin(&plain, pos);
        if let Some(at) = at {
            if at == pos
                && at > 0
                && !plain[..at].ends_with('\n')
                && plain[at..]
                    .get(..5)
                    .is_some_and(|s| s.eq_ignore_ascii_case("BEGIN"))
            {
                cx.count("texts not settled");
                return Ok(());
            }
        }
        let got = it.next();
        let (at, got) = match (at, got) {
            (None, None) => break,
            (Some(_), None) => {
                return fail(
                    "items are missing",
                    input,
                    format!("{how}: nothing for item {n}"),
                );
            }
            (None, Some(x)) => {
                return fail(
                    "too many items",
                    input,
                    format!("{how}: item {n}: {:?}", x.map(|c| dump(&c))),
                );
            }
            (Some(at), Some(x)) => (at, x),
        };
        let o = reference::card(&plain, at, strict);
        agrees(cx, &got, &o, input, how)?;
        n += 1;
        pos = match got {
            Ok(_) => o.end.unwrap(),
            Err(e) => match o.end {
                // the card is complete but invalid
                Some(end)
                    if matches!(&variant(&e)[..], "NoFormattedName" | "MemberRequiresGroup") =>
                {
                    end
                }
                _ => reference::resync(&plain, at),
            },
        };
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return fail("an item after the end", input, how.to_string());
        }
    }
    cx.add("items compared", n);
    cx.count("texts compared to their end");
    Ok(())
}

fn run(cx: &mut Cx, side: Side) -> R {
    let input = text(&mut cx.rng);
    cx.input = input.clone();
    match side {
        Side::Accept | Side::Refuse => whole(cx, &input, true)?,
        Side::Loose => whole(cx, &input, false)?,
        Side::Stream => {
            items(cx, &input, true)?;
            items(cx, &input, false)?;
        }
    }
    cx.seen(&input);
    Ok(())
}

pub fn accept(cx: &mut Cx) -> R {
    run(cx, Side::Accept)
}
pub fn loose(cx: &mut Cx) -> R {
    run(cx, Side::Loose)
}
pub fn refuse(cx: &mut Cx) -> R {
    run(cx, Side::Refuse)
}
pub fn stream(cx: &mut Cx) -> R {
    run(cx, Side::Stream)
}

// ------------------------------------------------------------------- focus

/// The part of a text a property of the library is about.
pub struct Focus {
    names: &'static [&'static str],
    /// errors of faults in that part
    errs: &'static [&'static str],
    /// keep of a property only what is of interest
    part: fn(MProp) -> Option<MProp>,
}

const TIMED: [&str; 4] = ["BDAY", "ANNIVERSARY", "REV", "X-T"];

fn no_params(p: MProp) -> MProp {
    MProp {
        params: None,
        group: None,
        ..p
    }
}

pub const PARAMS: Focus = Focus {
    names: &FIELDS,
    errs: &[
        "InvalidPid",
        "PrefOutOfRange",
        "TypeParameter",
        "InvalidLabel",
        "NotQuoted",
        "CharsetParameter",
    ],
    part: |p| {
        p.params.is_some().then(|| MProp {
            val: MVal::Bool(true),
            group: None,
            ..p
        })
    },
};

pub const TEXTS: Focus = Focus {
    names: &[
        "N",
        "ORG",
        "CATEGORIES",
        "ADR",
        "GENDER",
        "NOTE",
        "FN",
        "NICKNAME",
        "TITLE",
        "ROLE",
        "EMAIL",
        "PRODID",
        "XML",
        "TEL",
        "X-TEXT",
    ],
    errs: &["InvalidAddress"],
    part: |p| {
        matches!(
            p.val,
            MVal::Text(_) | MVal::List(_) | MVal::Adr(_) | MVal::Gender(..)
        )
        .then(|| no_params(p))
    },
};

pub const NAMES: Focus = Focus {
    names: &FIELDS,
    errs: &["UnknownPropertyName"],
    part: |p| {
        Some(MProp {
            params: p.params.map(|q| MParams {
                value: q.value,
                types: q.types,
                ext: q.ext,
                ..Default::default()
            }),
            val: MVal::Bool(true),
            ..p
        })
    },
};

pub const DATES: Focus = Focus {
    names: &TIMED,
    errs: crate::reference::TIMES,
    part: |p| {
        matches!(
            p.val,
            MVal::Dt(_)
                | MVal::Rev(..)
                | MVal::Date(_)
                | MVal::DateTime(_)
                | MVal::Time(_)
                | MVal::Timestamp(_)
        )
        .then(|| no_params(p))
    },
};

pub const OFFSETS: Focus = Focus {
    names: &["TZ", "X-T", "BDAY", "REV"],
    errs: &[],
    part: |p| {
        let tz = p.params.as_ref().and_then(|q| q.tz.clone());
        let val = match p.val {
            MVal::Off(o) => MVal::Off(o),
            MVal::Dt(l) => MVal::Dt(
                l.into_iter()
                    .filter_map(|d| match d {
                        MDt::D(_) => None,
                        MDt::DT(_, t) | MDt::T(t) => Some(MDt::T(t)),
                    })
                    .collect(),
            ),
            MVal::Rev(_, t) => MVal::Time(vec![t]),
            MVal::Time(l) => MVal::Time(l),
            MVal::DateTime(l) | MVal::Timestamp(l) => {
                MVal::Time(l.into_iter().map(|x| x.1).collect())
            }
            _ if tz.is_some() => MVal::Bool(true),
            _ => return None,
        };
        Some(MProp {
            name: p.name,
            group: None,
            params: tz.map(|tz| MParams {
                tz: Some(tz),
                ..Default::default()
            }),
            val,
        })
    },
};

pub const TYPED: Focus = Focus {
    names: &["X-A", "X-B", "x-c", "X-A"],
    errs: &["ParseInt", "ParseFloat", "InvalidBoolean"],
    part: |p| gen::is_ext(&p.name).then(|| no_params(p)),
};

pub const URIS: Focus = Focus {
    names: &[
        "TEL",
        "RELATED",
        "UID",
        "KEY",
        "PHOTO",
        "SOURCE",
        "IMPP",
        "LOGO",
        "GEO",
        "SOUND",
        "URL",
        "FBURL",
        "CALADRURI",
        "CALURI",
        "TZ",
    ],
    errs: &["UriParse", "UnsupportedValueType"],
    part: |p| {
        (URIS.names.contains(&&p.name[..]) || p.name == "MEMBER").then(|| MProp {
            params: p.params.map(|q| MParams {
                value: q.value,
                ..Default::default()
            }),
            group: None,
            ..p
        })
    },
};

pub const TOKENS: Focus = Focus {
    names: &[
        "KIND",
        "GENDER",
        "CLIENTPIDMAP",
        "TEL",
        "RELATED",
        "EMAIL",
        "X-A",
        "ADR",
    ],
    errs: &[
        "UnknownKind",
        "UnknownSex",
        "InvalidPid",
        "InvalidClientPidMap",
        "ClientPidMapPidNotAllowed",
    ],
    part: |p| {
        let q = p.params.unwrap_or_default();
        let val = match p.val {
            v @ (MVal::Kind(_) | MVal::Gender(..) | MVal::PidMap(..)) => v,
            _ => MVal::Bool(true),
        };
        Some(MProp {
            name: p.name,
            group: None,
            params: Some(MParams {
                value: q.value,
                types: q.types,
                pid: q.pid,
                ..Default::default()
            }),
            val,
        })
    },
};

/// The part of every item of the text that is in focus.
fn focused(cx: &mut Cx, f: &Focus) -> R {
    let input = remix_of(&mut cx.rng, f.names);
    cx.input = input.clone();
    let plain = reference::unfold(&input);
    for strict in [true, false] {
        let mut it = vcard4::iter(&input[..], strict);
        let mut pos = 0;
        while let (Some(at), Some(got)) = (reference::begin(&plain, pos), it.next()) {
            if at == pos && at > 0 && !plain[..at].ends_with('\n') {
                break;
            }
            let o = reference::card(&plain, at, strict);
            pos = match &got {
                Ok(c) => {
                    match &o.fails {
                        Some(e) if e.iter().all(|e| f.errs.contains(e)) => {
                            return fail(
                                "text that does not conform was accepted",
                                &input[..],
                                format!(
                                    "strict {strict}: expected one of {e:?}\n  observed {:?}",
                                    dump(c)
                                ),
                            );
                        }
                        Some(_) => {}
                        None => {
                            let keep = |c: MCard| -> MCard {
                                c.into_iter()
                                    .filter(|p| !o.open.contains(&p.name))
                                    .filter_map(f.part)
                                    .collect()
                            };
                            let seen = keep(canonical(dump(c)));
                            let want = keep(canonical(sorted(o.card.clone())));
                            let n = want.len();
                            if let Some(d) = diff(&[want], &[seen]) {
                                return fail(
                                    "contents are not those of the text",
                                    &input[..],
                                    format!("strict {strict}: {d}"),
                                );
                            }
                            cx.add("parts of mixed texts compared", n as u64);
                        }
                    }
                    match o.end {
                        Some(e) => e,
                        None => break,
                    }
                }
                Err(e) => {
                    let v = variant(e);
                    if o.fails.is_none() && !o.may_fail && f.errs.contains(&&v[..]) {
                        return fail(
                            "conforming text was refused",
                            &input[..],
                            format!("strict {strict}: observed {e:?}\n  expected {:?}", o.card),
                        );
                    }
                    cx.count("mixed texts refused");
                    match o.end {
                        Some(end)
                            if matches!(&v[..], "NoFormattedName" | "MemberRequiresGroup") =>
                        {
                            end
                        }
                        _ => reference::resync(&plain, at),
                    }
                }
            };
        }
    }
    cx.seen(&input);
    Ok(())
}

pub fn params(cx: &mut Cx) -> R {
    focused(cx, &PARAMS)
}
pub fn texts(cx: &mut Cx) -> R {
    focused(cx, &TEXTS)
}
pub fn names(cx: &mut Cx) -> R {
    focused(cx, &NAMES)
}
pub fn dates(cx: &mut Cx) -> R {
    focused(cx, &DATES)
}
pub fn offsets(cx: &mut Cx) -> R {
    focused(cx, &OFFSETS)
}
pub fn typed(cx: &mut Cx) -> R {
    focused(cx, &TYPED)
}
pub fn uris(cx: &mut Cx) -> R {
    focused(cx, &URIS)
}
pub fn tokens(cx: &mut Cx) -> R {
    focused(cx, &TOKENS)
}
