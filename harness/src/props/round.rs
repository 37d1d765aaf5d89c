//! C05 (round trip of accepted input), C06 (built cards), C07 (wire format).

use super::text::{p, pv};
use super::total::try_write;
use super::*;
use crate::wire::{self, Style};
use crate::{gen, mutate, reader};
use vcard4::property::*;
use vcard4::{Vcard, VcardBuilder};

pub fn finite(c: &MCard) -> bool {
    c.iter().all(|p| match &p.val {
        MVal::Float(l) => l.iter().all(|b| f64::from_bits(*b).is_finite()),
        _ => true,
    })
}

pub fn write_all(cards: &[Vcard]) -> Option<String> {
    let mut s = String::new();
    for c in cards {
        s.push_str(&try_write(c).ok()?);
    }
    Some(s)
}

pub fn again_public(route: &str, input: &str, cards: &[Vcard]) -> R {
    again(route, input, cards)
}
pub fn conforms_public(cx: &mut Cx, input: &str, cards: &[Vcard], e: &[MCard]) -> R {
    conforms(cx, input, cards, e)
}

/// parse(write(cards)) == cards, and writing that gives the same text.
fn again(route: &str, input: &str, cards: &[Vcard]) -> R {
    let Some(t1) = write_all(cards) else {
        return fail(format!("{route}: can't be written"), input, "");
    };
    let show = |what: &str| format!("{route}: {what}");
    let d1 = dump_all(cards);
    match vcard4::parse(&t1) {
        Err(e) => {
            return fail(
                show("what was written is rejected"),
                input,
                format!("error {e:?}\n written {t1:?}"),
            )
        }
        Ok(c2) => {
            let d2 = dump_all(&c2);
            if let Some(d) = diff(&d1, &d2) {
                return fail(
                    show("another card after writing and reading"),
                    input,
                    format!("{d}\n written {t1:?}"),
                );
            }
            if c2 != cards {
                return fail(
                    show("not equal after writing and reading"),
                    input,
                    format!("{:?}\n{:?}\n written {t1:?}", cards, c2),
                );
            }
            match write_all(&c2) {
                Some(t2) if t2 == t1 => {}
                t2 => {
                    return fail(
                        show("other text when written again"),
                        input,
                        format!("first {t1:?}\n second {t2:?}"),
                    )
                }
            }
        }
    }
    Ok(())
}

/// All ways to obtain cards from an input.
pub fn accepted(input: &str) -> Vec<(&'static str, Vec<Vcard>)> {
    let mut v = Vec::new();
    if let Ok(c) = vcard4::parse(input) {
        v.push(("strict", c));
    }
    if let Ok(c) = vcard4::parse_loose(input) {
        v.push(("loose", c));
    }
    let bound = input.len() + 2;
    let c: Vec<Vcard> = vcard4::iter(input, true).take(bound).flatten().collect();
    if !c.is_empty() {
        v.push(("iterator", c));
    }
    let c: Vec<Vcard> = vcard4::iter(input, false).take(bound).flatten().collect();
    if !c.is_empty() {
        v.push(("loose iterator", c));
    }
    v
}

fn round(cx: &mut Cx, input: String) -> R {
    cx.input = input.clone();
    let mut some = false;
    let mut last: Option<Vec<MCard>> = None;
    for (route, cards) in accepted(&input) {
        let d = dump_all(&cards);
        if !d.iter().all(finite) {
            cx.count("not a finite number (not representable)");
            continue;
        }
        // the same cards by another route
        if last.as_ref() == Some(&d) {
            continue;
        }
        again(route, &input, &cards)?;
        cx.add("cards round-tripped", cards.len() as u64);
        cx.count(&format!("accepted: {route}"));
        last = Some(d);
        some = true;
    }
    if some {
        cx.seen(&input);
    } else {
        cx.count("not accepted");
    }
    Ok(())
}

fn documents(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let cards = gen::cards(r);
    let st = Style::random(r);
    let doc = wire::document(r, &st, &cards);
    round(cx, doc)
}

fn mutated(cx: &mut Cx) -> R {
    let s = mutate::mutated(&mut cx.rng);
    round(cx, s)
}

fn soup(cx: &mut Cx) -> R {
    let s = mutate::soup(&mut cx.rng);
    round(cx, s)
}

fn samples(cx: &mut Cx) -> R {
    let s = mutate::SAMPLES[cx.idx as usize].to_string();
    round(cx, s)
}

/// Odd values in every property, kept where they are accepted.
fn values(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v: Vec<String> = (0..3)
        .map(|_| {
            let s = mutate::value(r);
            s.chars().filter(|c| !c.is_control()).collect()
        })
        .collect();
    let mut doc = String::from("BEGIN:VCARD\nVERSION:4.0\nKIND:group\nFN:x\n");
    for n in FIELDS {
        for v in &v {
            doc.push_str(&format!("{n}:{v}\n"));
        }
    }
    for n in ["TEL", "RELATED", "KEY", "UID", "TZ", "PHOTO", "BDAY"] {
        for t in ["text", "uri", "utc-offset", "date-and-or-time"] {
            doc.push_str(&format!("{n};VALUE={t}:{}\n", r.of(&v)));
        }
    }
    for t in VALUES {
        for v in &v {
            doc.push_str(&format!("X-A;VALUE={t}:{v}\n"));
        }
    }
    for k in [
        "TZ",
        "GEO",
        "PID",
        "PREF",
        "TYPE",
        "X-A",
        "SORT-AS",
        "ALTID",
        "LABEL",
        "LANGUAGE",
        "MEDIATYPE",
        "CALSCALE",
        "VALUE",
        "ENCODING",
        "CHARSET",
    ] {
        for v in &v {
            doc.push_str(&format!("ADR;{k}={v}:;;;;;;\n"));
            doc.push_str(&format!("ADR;{k}=\"{v}\":;;;;;;\n"));
        }
    }
    doc.push_str("END:VCARD\n");
    round(cx, doc)
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "whatever is accepted (strictly, loosely or by the iterators) is written, re-parsed, compared by == and field by field, and written again byte for byte; non-trivial when at least one card was accepted",
        fams: vec![
            fam("documents", documents, 5_000, 800_000),
            exhaustive("sizes", sizes::fixed, sizes::ALL),
            fam("mutated", mutated, 12_000, 2_500_000),
            fam("soup", soup, 12_000, 2_000_000),
            fam("values", values, 2_500, 400_000),
            exhaustive("samples", samples, 9),
        ],
        must: vec![
            "accepted: strict",
            "accepted: loose",
            "accepted: loose iterator",
        ],
    }
}

// ---------------------------------------------------------------- C06

fn t(s: String) -> MVal {
    MVal::Text(s)
}

/// Replace or add.
fn set(m: &mut MCard, q: MProp) {
    m.retain(|o| o.name != q.name);
    m.push(q);
}

fn uri_of(s: &str) -> Result<vcard4::Uri, Fail> {
    match b_uri(s) {
        Ok(u) => Ok(u),
        Err(e) => fail("building", s, e),
    }
}

/// A random history of builder calls with a shadow model.
fn builder(cx: &mut Cx) -> R {
    let mut calls: Vec<&'static str> = Vec::new();
    let r = &mut cx.rng;
    let fname = gen::text_cr(r);
    let mut m: MCard = vec![p("FN", t(fname.clone()))];
    let mut b = VcardBuilder::new(fname);
    let n = match r.below(5) {
        0 => r.range(0, 2),
        1..=3 => r.range(3, 14),
        _ => r.range(15, 60),
    };
    let mut step = 0;
    let focus = if r.chance(1, 3) {
        Some(r.below(32))
    } else {
        None
    };
    while step < n {
        step += 1;
        let which = match focus {
            Some(f) if r.bool() => f,
            _ => r.below(32),
        };
        macro_rules! text {
            ($f:ident, $n:expr) => {{
                let s = gen::text_cr(r);
                m.push(p($n, t(s.clone())));
                calls.push(stringify!($f));
                b = b.$f(s);
            }};
        }
        macro_rules! uri {
            ($f:ident, $n:expr) => {{
                let s = gen::uri(r);
                m.push(p($n, MVal::Uri(s.clone())));
                calls.push(stringify!($f));
                b = b.$f(uri_of(&s)?);
            }};
        }
        match which {
            0 => {
                let k = r.pick(&KINDS);
                set(&mut m, p("KIND", MVal::Kind(k)));
                calls.push("kind");
                b = b.kind(b_kind(k));
            }
            1 => uri!(source, "SOURCE"),
            2 => text!(xml, "XML"),
            3 => text!(formatted_name, "FN"),
            4 => {
                let a: [String; 5] = std::array::from_fn(|_| gen::text_cr(r));
                set(&mut m, p("N", MVal::List(a.to_vec())));
                calls.push("name");
                b = b.name(a);
            }
            5 => text!(nickname, "NICKNAME"),
            6 => uri!(photo, "PHOTO"),
            7 | 8 => {
                let d = gen::date(r);
                let v: vcard4::Date = b_date(&d).into();
                let name = if which == 7 { "BDAY" } else { "ANNIVERSARY" };
                set(&mut m, p(name, MVal::Dt(vec![MDt::D(d)])));
                if which == 7 {
                    calls.push("birthday");
                    b = b.birthday(v);
                } else {
                    calls.push("anniversary");
                    b = b.anniversary(v);
                }
            }
            9 => {
                // a gender that does not parse is ignored
                calls.push("gender");
                match r.below(6) {
                    0 => {
                        let bad = r.pick(&["X", "male", "m", "MF", "M,", " M"]);
                        b = b.gender(bad);
                    }
                    _ => {
                        let s = r.pick(&SEXES);
                        let id = if r.bool() {
                            let mut i = gen::text(r);
                            i.retain(|c| !c.is_control());
                            Some(i)
                        } else {
                            None
                        };
                        let mut w = s.to_string();
                        if let Some(i) = &id {
                            w.push(';');
                            w.push_str(&wire::esc(r, &wire::PLAIN, i, ";"));
                        }
                        set(&mut m, p("GENDER", MVal::Gender(s, id)));
                        b = b.gender(&w);
                    }
                }
            }
            10 => {
                let a: [Option<String>; 7] = std::array::from_fn(|_| {
                    if r.bool() {
                        let s = gen::text_cr(r);
                        Some(s).filter(|s| !s.is_empty())
                    } else {
                        None
                    }
                });
                m.push(p("ADR", MVal::Adr(a.clone())));
                calls.push("address");
                b = b.address(b_adr(&a));
            }
            11 => {
                let s = gen::text_not_uri(r);
                m.push(p("TEL", t(s.clone())));
                calls.push("telephone");
                b = b.telephone(s);
            }
            12 => text!(email, "EMAIL"),
            13 => uri!(impp, "IMPP"),
            14 => {
                let l = gen::lang_value(r);
                m.push(p("LANG", MVal::Lang(l.clone())));
                calls.push("lang");
                b = b.lang(match b_lang(&l) {
                    Ok(l) => l,
                    Err(e) => return fail("building", l, e),
                });
            }
            15 => text!(timezone, "TZ"),
            16 => uri!(geo, "GEO"),
            17 => text!(title, "TITLE"),
            18 => text!(role, "ROLE"),
            19 => uri!(logo, "LOGO"),
            20 => {
                let l = gen::list(r, 4, gen::text_cr);
                m.push(p("ORG", MVal::List(l.clone())));
                calls.push("org");
                b = b.org(l);
            }
            21 => uri!(member, "MEMBER"),
            22 => uri!(related, "RELATED"),
            23 => {
                let l = gen::list(r, 4, gen::text_cr);
                m.push(p("CATEGORIES", MVal::List(l.clone())));
                calls.push("categories");
                b = b.categories(l);
            }
            24 => text!(note, "NOTE"),
            25 => {
                let s = gen::text_cr(r);
                set(&mut m, p("PRODID", t(s.clone())));
                calls.push("prod_id");
                b = b.prod_id(s);
            }
            26 => {
                let (d, ti) = (gen::date(r), gen::time(r));
                set(&mut m, p("REV", MVal::Rev(d, ti)));
                calls.push("rev");
                b = b.rev(b_datetime(&d, &ti));
            }
            27 => uri!(sound, "SOUND"),
            28 => {
                let s = gen::uri(r);
                set(&mut m, p("UID", MVal::Uri(s.clone())));
                calls.push("uid");
                b = b.uid(uri_of(&s)?);
            }
            29 => uri!(url, "URL"),
            30 => uri!(key, "KEY"),
            _ => match r.below(3) {
                0 => uri!(fburl, "FBURL"),
                1 => uri!(cal_adr_uri, "CALADRURI"),
                _ => uri!(cal_uri, "CALURI"),
            },
        }
    }
    let card = b.finish();
    let m = sorted(m);
    let input = format!("{m:?}");
    cx.input = input.clone();
    if let Some(d) = diff(&[m.clone()], &[dump(&card)]) {
        return fail(format!("builder state after {calls:?}"), input, d);
    }
    for c in &calls {
        cx.count(&format!("call {c}"));
    }
    let group = m.iter().any(|p| p.val == MVal::Kind("group"));
    let members = m.iter().any(|p| p.name == "MEMBER");
    let valid = card.validate().is_ok();
    if valid != (group || !members) {
        return fail(
            "validate on a built card",
            input,
            format!("{:?}", card.validate()),
        );
    }
    if valid {
        let e = map_newlines(&m);
        again_equals("built card", &input, &card, &e)?;
        cx.count("built cards written and read");
    } else {
        cx.count("built cards that are invalid");
    }
    cx.seen(&input);
    Ok(())
}

fn map_newlines(m: &MCard) -> MCard {
    let f = |s: &mut String| *s = gen::normal_newlines(s);
    let mut m = m.clone();
    for q in &mut m {
        match &mut q.val {
            MVal::Text(s) | MVal::Lang(s) => f(s),
            MVal::List(l) => l.iter_mut().for_each(f),
            MVal::Gender(_, Some(s)) => f(s),
            MVal::Adr(a) => a.iter_mut().flatten().for_each(f),
            _ => {}
        }
    }
    m
}

fn again_equals(what: &str, input: &str, c: &Vcard, e: &MCard) -> R {
    let Ok(s) = try_write(c) else {
        return fail(format!("{what}: can't be written"), input, "");
    };
    match vcard4::parse(&s) {
        Ok(l) => match diff(&[e.clone()], &dump_all(&l)) {
            None => {
                if *e == dump(c) && l[0] != *c {
                    return fail(
                        format!("{what}: not equal when read back"),
                        input,
                        format!("{:?}\n{:?}\n written {s:?}", c, l[0]),
                    );
                }
                Ok(())
            }
            Some(d) => fail(
                format!("{what}: read back differently"),
                input,
                format!("{d}\n written {s:?}"),
            ),
        },
        Err(e) => fail(
            format!("{what}: what was written is rejected"),
            input,
            format!("{e:?}\n written {s:?}"),
        ),
    }
}

/// Cards filled through the public fields.
fn fields(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = sorted(gen::card(r));
    let input = format!("{m:?}");
    cx.input = input.clone();
    let c = match build(&m) {
        Ok(c) => c,
        Err(e) => return fail("building", input, e),
    };
    if let Some(d) = diff(&[m.clone()], &[dump(&c)]) {
        // the model and the fields disagree: the harness is wrong
        panic!("{d}");
    }
    if let Err(e) = c.validate() {
        return fail("a valid card does not validate", input, format!("{e:?}"));
    }
    again_equals("card", &input, &c, &m)?;
    cx.count("cards written and read");
    cx.seen(&input);
    Ok(())
}

/// Every `From` conversion, alone and inside a card.
fn conversions(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = gen::text_not_uri(r);
    let any = gen::text(r);
    let us = gen::uri(r);
    let u = uri_of(&us)?;
    let (d, ti, o) = (gen::date(r), gen::time(r), gen::offset(r));
    let (bd, bt) = (b_date(&d), b_time(&ti));
    let date = || -> vcard4::Date { bd.into() };
    let datetime = || b_datetime(&d, &ti);
    let mut adr: [Option<String>; 7] = Default::default();
    for c in adr.iter_mut() {
        if r.bool() {
            *c = Some(gen::nonempty_text(r));
        }
    }
    let kind = r.pick(&KINDS);
    let sex = r.pick(&SEXES);
    let ident = if r.bool() { Some(gen::text(r)) } else { None };
    let lang = gen::lang_value(r);
    let list = gen::list(r, 4, gen::text);
    let mut c = Vcard::new(any.clone());
    let mut m: MCard = vec![p("FN", t(any.clone()))];
    macro_rules! dt {
        ($f:ident, $n:expr) => {
            match r.below(4) {
                0 => {
                    c.$f = Some(any.clone().into());
                    m.push(pv($n, "text", t(any.clone())));
                }
                1 => {
                    c.$f = Some(date().into());
                    m.push(p($n, MVal::Dt(vec![MDt::D(d)])));
                }
                2 => {
                    c.$f = Some(datetime().into());
                    m.push(p($n, MVal::Dt(vec![MDt::DT(d, ti)])));
                }
                _ => {
                    c.$f = Some(bt.into());
                    m.push(p($n, MVal::Dt(vec![MDt::T(ti)])));
                }
            }
        };
    }
    dt!(bday, "BDAY");
    dt!(anniversary, "ANNIVERSARY");
    c.kind = Some(b_kind(kind).into());
    m.push(p("KIND", MVal::Kind(kind)));
    c.gender = Some(
        Gender {
            sex: b_sex(sex),
            identity: ident.clone(),
        }
        .into(),
    );
    m.push(p("GENDER", MVal::Gender(sex, ident)));
    c.address.push(b_adr(&adr).into());
    m.push(p("ADR", MVal::Adr(adr)));
    for f in 0..3 {
        let (a, b): (TextOrUriProperty, TextOrUriProperty) = (s.clone().into(), u.clone().into());
        let (n, v) = match f {
            0 => ("TEL", &mut c.tel),
            1 => ("RELATED", &mut c.related),
            _ => ("KEY", &mut c.key),
        };
        v.push(a);
        v.push(b);
        m.push(p(n, t(s.clone())));
        m.push(p(n, MVal::Uri(us.clone())));
    }
    c.photo.push(s.clone().into());
    c.photo.push(u.clone().into());
    m.push(p("PHOTO", t(s.clone())));
    m.push(p("PHOTO", MVal::Uri(us.clone())));
    if r.bool() {
        c.uid = Some(s.clone().into());
        m.push(p("UID", t(s.clone())));
    } else {
        c.uid = Some(u.clone().into());
        m.push(p("UID", MVal::Uri(us.clone())));
    }
    c.timezone.push(any.clone().into());
    c.timezone.push(u.clone().into());
    c.timezone.push(b_off(o).into());
    m.push(p("TZ", t(any.clone())));
    m.push(pv("TZ", "uri", MVal::Uri(us.clone())));
    m.push(pv("TZ", "utc-offset", MVal::Off(o)));
    c.rev = Some(datetime().into());
    m.push(p("REV", MVal::Rev(d, ti)));
    match b_lang(&lang) {
        Ok(l) => c.lang.push(l.into()),
        Err(e) => return fail("building", lang, e),
    }
    m.push(p("LANG", MVal::Lang(lang)));
    c.note.push(any.clone().into());
    m.push(p("NOTE", t(any.clone())));
    c.url.push(u.clone().into());
    m.push(p("URL", MVal::Uri(us.clone())));
    match UriProperty::try_from(&us[..]) {
        Ok(q) => c.source.push(q),
        Err(e) => return fail("UriProperty::try_from", us, format!("{e:?}")),
    }
    m.push(p("SOURCE", MVal::Uri(us.clone())));
    c.org.push(TextListProperty::new_semi_colon(list.clone()));
    c.categories.push(TextListProperty::new_comma(list.clone()));
    c.name = Some(TextListProperty::new_semi_colon(list.clone()));
    for n in ["ORG", "CATEGORIES", "N"] {
        m.push(p(n, MVal::List(list.clone())));
    }
    let m = sorted(m);
    let input = format!("{m:?}");
    cx.input = input.clone();
    if let Some(d) = diff(&[m.clone()], &[dump(&c)]) {
        return fail("conversion", input, d);
    }
    again_equals("converted card", &input, &c, &m)?;

    // the property trait gives what the fields hold
    let x = DateAndOrTimeProperty::from(date());
    let y = DateAndOrTimeProperty::from(datetime());
    let z = DateAndOrTimeProperty::from(bt);
    let w = UtcOffsetProperty::from(b_off(o));
    for (got, want) in [
        (x.to_string(), wire::w_date(&d)),
        (y.to_string(), wire::w_datetime(&d, &ti)),
        (w.to_string(), wire::w_off(o)),
    ] {
        if got != want {
            return fail("converted value", input, format!("{got} {want}"));
        }
    }
    let back = reader::r_dt(&z.to_string());
    if back != Ok(MDt::T(ti)) {
        return fail("converted time", input, format!("{z} {back:?}"));
    }
    cx.count("conversion sets");
    cx.seen(&input);
    Ok(())
}

/// The Property trait reports the fields of each property.
fn accessors(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = sorted(gen::card(r));
    let Ok(c) = build(&m) else { return Ok(()) };
    let input = format!("{m:?}");
    let mut n = 0;
    let mut seen: Vec<(Option<String>, Option<MParams>, String)> = Vec::new();
    {
        let mut see = |q: &dyn Property| {
            n += 1;
            seen.push((
                q.group().cloned(),
                q.parameters()
                    .map(d_params)
                    .filter(|p| *p != MParams::default()),
                q.to_string(),
            ));
        };
        macro_rules! each {
            ($($f:ident)*) => { $( for q in c.$f.iter() { see(q); } )* };
        }
        each!(source kind xml formatted_name name nickname photo bday
            anniversary gender url address title role logo org member
            related tel email impp lang timezone geo categories note
            prod_id rev sound uid client_pid_map key fburl cal_adr_uri
            cal_uri extensions);
    }
    for (q, (g, pr, text)) in m.iter().zip(&seen) {
        if *g != q.group || *pr != q.params {
            return fail(
                format!("Property trait of {}", q.name),
                input,
                format!("{g:?} {pr:?}\n{q:?}"),
            );
        }
        // the text of the property is the value part of its line
        let l = reader::Line {
            group: g.clone(),
            name: q.name.clone(),
            params: vec![],
            value: text.clone(),
        };
        let mut bare = q.clone();
        let ty = q.params.as_ref().and_then(|p| p.value);
        let with = reader::Line {
            params: ty
                .map(|t| vec![("VALUE".into(), t.to_string(), false)])
                .unwrap_or_default(),
            ..l
        };
        bare.params = ty.map(|t| MParams {
            value: Some(t),
            ..Default::default()
        });
        match reader::interpret(&with) {
            Ok(v) if v == bare => {}
            other => {
                return fail(
                    format!("Display of {}", q.name),
                    input,
                    format!("{text:?} reads as {other:?}\nexpected {bare:?}"),
                )
            }
        }
    }
    cx.add("properties seen through the trait", n);
    cx.seen(&input);
    Ok(())
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "random builder histories run beside a shadow model; finished cards, cards filled through public fields and converted values are compared with the model, written, re-parsed and compared again; non-trivial when the comparison of the finished card was made",
        fams: vec![
            fam("builder", builder, 10_000, 2_000_000),
            fam("fields", fields, 8_000, 1_500_000),
            fam("conversions", conversions, 4_000, 500_000),
            fam("accessors", accessors, 4_000, 500_000),
        ],
        must: vec![
            "call kind", "call source", "call xml", "call formatted_name",
            "call name", "call nickname", "call photo", "call birthday",
            "call anniversary", "call gender", "call address",
            "call telephone", "call email", "call impp", "call lang",
            "call timezone", "call geo", "call title", "call role",
            "call logo", "call org", "call member", "call related",
            "call categories", "call note", "call prod_id", "call rev",
            "call sound", "call uid", "call url", "call key", "call fburl",
            "call cal_adr_uri", "call cal_uri",
            "built cards written and read", "built cards that are invalid",
        ],
    }
}

// ---------------------------------------------------------------- C07

/// Whether a text with a scheme is a valid URI is not for the reference
/// reader to say: take the kind of the expected value and compare the text.
fn settle(expected: &[MCard], got: &mut [MCard]) {
    for (e, o) in expected.iter().zip(got) {
        for (e, o) in e.iter().zip(o) {
            let typed = e.name != "PHOTO" && e.params.as_ref().is_some_and(|p| p.value.is_some());
            if let (MVal::Text(_), MVal::Uri(u), false) = (&e.val, &o.val, typed) {
                if let Ok(t) = reader::unescape(u, ",") {
                    o.val = MVal::Text(t);
                }
            }
            if let (Some(a), Some(b)) = (&e.params, &mut o.params) {
                if let (Some(MTz::Text(_)), Some(MTz::Uri(s))) = (&a.tz, &b.tz) {
                    b.tz = Some(MTz::Text(s.clone()));
                }
            }
        }
    }
}

/// The written text read by the reference reader gives the model.
fn conforms(cx: &mut Cx, input: &str, cards: &[Vcard], e: &[MCard]) -> R {
    let Some(s) = write_all(cards) else {
        return fail("can't be written", input, "");
    };
    cx.input = input.to_string();
    match reader::read(&s) {
        Err(m) => return fail("not conforming", input, format!("{m}\n written {s:?}")),
        Ok(mut got) => {
            settle(e, &mut got);
            if let Some(d) = diff(e, &got) {
                return fail(
                    "another reader sees something else",
                    input,
                    format!("{d}\n written {s:?}"),
                );
            }
        }
    }
    match reader::folds_ok(&s) {
        Ok(n) => cx.add("folds checked", n as u64),
        Err(m) => return fail("bad fold", input, m),
    }
    let lines = s.matches("\r\n").count();
    cx.add("physical lines", lines as u64);
    Ok(())
}

fn w_memory(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let cards: Vec<MCard> = gen::cards(r).into_iter().map(sorted).collect();
    let input = format!("{cards:?}");
    let mut built = Vec::new();
    for m in &cards {
        match build(m) {
            Ok(c) => built.push(c),
            Err(e) => return fail("building", input, e),
        }
    }
    conforms(cx, &input, &built, &cards)?;
    cx.seen(&input);
    Ok(())
}

/// Text with carriage returns and other line separators.
fn w_returns(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = gen::text_cr(r);
    let m: MCard = vec![
        p("FN", t(s.clone())),
        p("N", MVal::List(vec![s.clone(), s.clone()])),
        p(
            "ADR",
            MVal::Adr(std::array::from_fn(|_| {
                Some(s.clone()).filter(|s| !s.is_empty())
            })),
        ),
        p("CATEGORIES", MVal::List(vec![s.clone(), s.clone()])),
        p("NOTE", t(s.clone())),
        pv("UID", "text", t(s.clone())),
        p("X-A", t(s.clone())),
    ];
    let input = format!("{m:?}");
    let c = match build(&m) {
        Ok(c) => c,
        Err(e) => return fail("building", input, e),
    };
    conforms(cx, &input, &[c], &[sorted(map_newlines(&m))])?;
    cx.seen(&input);
    Ok(())
}

fn w_accepted(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = match r.below(3) {
        0 => mutate::soup(r),
        _ => mutate::mutated(r),
    };
    cx.input = s.clone();
    let mut last = None;
    for (_, cards) in accepted(&s) {
        let d = dump_all(&cards);
        if !d.iter().all(finite) || last.as_ref() == Some(&d) {
            continue;
        }
        conforms(cx, &s, &cards, &d)?;
        cx.add("accepted cards", cards.len() as u64);
        last = Some(d);
    }
    if last.is_some() {
        cx.seen(&s);
    }
    Ok(())
}

/// Characters that do not belong into names, some of which become ASCII
/// letters in the other letter case.
const ODD: [&str; 22] = [
    "\u{17f}", "\u{212a}", "\u{131}", "\u{130}", "ß", "\u{fb01}", "\u{fb06}", "\u{149}",
    "\u{212b}", "\u{ff33}", "\u{ff4b}", "\u{ff11}", "é", "_", " ", "/", "*", "\u{200d}", "e\u{301}",
    "\u{660}", "\u{a0}", ".",
];

/// Odd characters in the names of a line.
fn odd_names(cx: &mut Cx) -> R {
    let odd = ODD[(cx.idx % ODD.len() as u64) as usize];
    let r = &mut cx.rng;
    let mut m = gen::card(r);
    let p = gen::any_prop(r, 40);
    m.retain(|q| !(gen::SINGLE.contains(&&q.name[..]) && q.name == p.name));
    m.truncate(4);
    m.push(p.clone());
    let m = gen::make_valid(r, m);
    let st = wire::Style::random(r);
    let mut lines = wire::card_lines(r, &st, &m);
    let k = match lines.iter().position(|l| {
        l.to_uppercase()
            .split([';', ':', '.'])
            .take(2)
            .any(|n| n == p.name.to_uppercase())
    }) {
        Some(k) if r.chance(7, 8) => k,
        _ => r.below(lines.len()),
    };
    let head = lines[k].find(':').unwrap_or(lines[k].len());
    let at: Vec<usize> = lines[k][..head]
        .char_indices()
        .filter(|(_, c)| c.is_ascii_alphanumeric())
        .map(|(i, _)| i)
        .collect();
    // in place of the letters it looks like, or anywhere
    let like: Vec<usize> = at
        .iter()
        .copied()
        .filter(|i| {
            let c = lines[k].as_bytes()[*i].to_ascii_uppercase();
            odd.to_uppercase().as_bytes().first() == Some(&c)
                || odd.to_lowercase().as_bytes().first().map(u8::to_ascii_uppercase) == Some(c)
        })
        .collect();
    let pool = if like.is_empty() || r.chance(1, 3) { &at } else { &like };
    if pool.is_empty() {
        return Ok(());
    }
    let i = *r.of(pool);
    if pool == &like || r.bool() {
        lines[k].replace_range(i..i + 1, odd);
    } else {
        lines[k].insert_str(i, odd);
    }
    let s = wire::physical(r, &st, &lines);
    cx.input = s.clone();
    let mut last = None;
    for (_, cards) in accepted(&s) {
        let d = dump_all(&cards);
        if !d.iter().all(finite) || last.as_ref() == Some(&d) {
            continue;
        }
        conforms(cx, &s, &cards, &d)?;
        cx.add("accepted with odd characters", cards.len() as u64);
        last = Some(d);
    }
    cx.seen(&s);
    Ok(())
}

/// Every grapheme at every column.
const GRAPHEMES: [&str; 27] = [
    "x", "é", "e\u{301}", "日", "한", "\u{1112}\u{1161}\u{11ab}",
    "\u{1F600}", "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}",
    "\u{ba8}\u{bbf}", "\u{600}1", "\u{915}\u{94d}\u{937}", "\u{e01}\u{e33}",
    "\u{2764}\u{fe0f}", "1\u{fe0f}\u{20e3}", "\u{ac00}\u{11a8}",
    "\u{1f3f4}\u{e0067}\u{e0062}\u{e007f}", "x\u{200d}",
    "\u{1F1E9}\u{1F1EA}", "👍🏽", "\u{a0}", " ", "\t", "\n", ",", ";", "\\",
    "a\u{300}\u{301}\u{302}\u{303}\u{304}\u{305}\u{306}\u{307}\u{308}\u{309}\u{30a}\u{30b}\u{30c}\u{30d}\u{30e}\u{30f}\u{310}\u{311}\u{312}\u{313}\u{314}\u{315}\u{316}\u{317}\u{318}\u{319}\u{31a}\u{31b}\u{31c}\u{31d}\u{31e}\u{31f}\u{320}\u{321}\u{322}\u{323}",
];
const OFFSETS: usize = 80;

fn alignment(cx: &mut Cx) -> R {
    let i = cx.idx as usize;
    let g = GRAPHEMES[i % GRAPHEMES.len()];
    let pad = "x".repeat(i / GRAPHEMES.len());
    // the grapheme after the padding, several times, then another
    let s = format!("{pad}{}{}", g.repeat(3), pad);
    let run = format!("{pad}{}", g.repeat(60));
    let mut q = p("NOTE", t("v".into()));
    q.params = Some(MParams {
        alt_id: Some(s.clone()),
        ext: Some(vec![("X-P".into(), vec![s.clone()])]),
        ..Default::default()
    });
    let m: MCard = vec![
        p("FN", t(s.clone())),
        p("NOTE", t(run.clone())),
        q,
        p("CATEGORIES", MVal::List(vec![s.clone(), run])),
        p("ORG", MVal::List(vec![s.clone(), s.clone()])),
        p(
            "ADR",
            MVal::Adr([
                None,
                None,
                Some(s.clone()),
                None,
                None,
                None,
                Some(s.clone()),
            ]),
        ),
        p("X-LONG-NAME-OF-A-PROPERTY", t(s.clone())),
        MProp {
            group: Some("g".repeat(1 + i / GRAPHEMES.len())),
            ..p("EMAIL", t(g.repeat(4)))
        },
        p("URL", MVal::Uri(format!("urn:{pad}y"))),
    ];
    let m = sorted(m);
    let c = match build(&m) {
        Ok(c) => c,
        Err(e) => return fail("building", s, e),
    };
    conforms(cx, &s, &[c], &[m])?;
    cx.count("alignments");
    cx.seen(&s);
    Ok(())
}

/// Long values of every kind of property.
fn long(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut m: MCard = Vec::new();
    let name = *r.of(&FIELDS);
    let n = if gen::is_ext(name) { "X-A" } else { name };
    let mut q = gen::prop(r, n, 30);
    q.group = if r.chance(1, 5) {
        Some(gen::alnum(r, 1, 200))
    } else {
        q.group
    };
    let mut big = String::new();
    let target = r.range(76, 700) as usize;
    while big.len() < target {
        big.push_str(&gen::text(r));
        big.push_str(*r.of(&GRAPHEMES));
    }
    match &mut q.val {
        MVal::Text(s) => *s = big,
        MVal::List(l) => l.push(big),
        MVal::Adr(a) => a[r.below(7)] = Some(big),
        MVal::Gender(_, i) => *i = Some(big),
        MVal::Uri(u) => *u = format!("urn:{}", gen::alnum(r, 50, 400)),
        MVal::Dt(l) => {
            for _ in 0..20 {
                l.push(gen::dt(r))
            }
        }
        _ => {}
    }
    if let (MVal::Text(s), None) = (&mut q.val, q.params.as_ref().and_then(|p| p.value)) {
        // text must not read as a URI
        if gen::has_scheme(s) {
            s.insert(0, '1');
        }
        if name == "BDAY" || name == "ANNIVERSARY" {
            q.params.get_or_insert_with(Default::default).value = Some("text");
        }
    }
    m.push(q);
    if name == "MEMBER" {
        m.push(p("KIND", MVal::Kind("group")));
    }
    if name != "FN" {
        m.push(p("FN", t("x".into())));
    }
    let m = sorted(m);
    let input = format!("{m:?}");
    let c = match build(&m) {
        Ok(c) => c,
        Err(e) => return fail("building", input, e),
    };
    conforms(cx, &input, &[c], &[m])?;
    cx.seen(&input);
    Ok(())
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "written cards are split into physical lines, checked against the line limit, line endings and grapheme boundaries, unfolded and parsed by an independent RFC 6350 reader whose result is compared with the model; non-trivial when a written text was read completely",
        fams: vec![
            fam("memory", w_memory, 5_000, 800_000),
            exhaustive("sizes", sizes::written, sizes::ALL),
            fam("returns", w_returns, 4_000, 400_000),
            fam("accepted", w_accepted, 8_000, 1_500_000),
            fam("odd names", odd_names, 12_000, 1_000_000),
            exhaustive(
                "alignment",
                alignment,
                (GRAPHEMES.len() * OFFSETS) as u64,
            ),
            fam("long", long, 6_000, 800_000),
        ],
        must: vec![
            "folds checked", "alignments", "accepted cards", "accepted with odd characters",
        ],
    }
}
