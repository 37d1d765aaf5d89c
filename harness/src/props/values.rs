//! C25 (parts on their own) and C26 (equality and clones).

use super::round::finite;
use super::*;
use crate::rng::Rng;
use crate::wire::{self, Style, PLAIN};
use crate::{gen, reader};
use vcard4::helper as h;
use vcard4::property::*;
use vcard4::Vcard;

fn doc(lines: &[String]) -> String {
    let mut s = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n");
    for l in lines {
        s += l;
        s += "\r\n";
    }
    s + "END:VCARD\r\n"
}

/// What one property prints on its own: name, group, parameters, value.
struct Printed {
    name: String,
    group: Option<String>,
    params: String,
    value: String,
    /// text of the value inside the property, if it is printable itself
    inner: Option<String>,
}

fn printed(c: &Vcard) -> Vec<Printed> {
    let mut out = Vec::new();
    fn of(name: &str, p: &impl Property, inner: Option<String>) -> Printed {
        Printed {
            name: name.to_string(),
            group: p.group().cloned(),
            params: p.parameters().map(|p| p.to_string()).unwrap_or_default(),
            value: p.to_string(),
            inner,
        }
    }
    macro_rules! each {
        ($field:ident, $name:expr) => {
            for p in &c.$field {
                out.push(of($name, p, None));
            }
        };
    }
    macro_rules! inner {
        ($field:ident, $name:expr) => {
            for p in &c.$field {
                out.push(of($name, p, Some(p.value.to_string())));
            }
        };
    }
    fn either(p: &TextOrUriProperty) -> Option<String> {
        Some(match p {
            TextOrUriProperty::Text(p) => p.to_string(),
            TextOrUriProperty::Uri(p) => p.to_string(),
        })
    }
    fn date(p: &DateTimeOrTextProperty) -> Option<String> {
        Some(match p {
            DateTimeOrTextProperty::Text(p) => p.to_string(),
            DateTimeOrTextProperty::DateTime(p) => {
                // the list is its items
                let l: Vec<String> = p.value.iter().map(|v| v.to_string()).collect();
                let l = l.join(",");
                if l != p.to_string() {
                    return Some(format!("items {l:?}, list {:?}", p.to_string()));
                }
                l
            }
        })
    }
    inner!(source, "SOURCE");
    inner!(kind, "KIND");
    each!(xml, "XML");
    each!(formatted_name, "FN");
    each!(name, "N");
    each!(nickname, "NICKNAME");
    for p in &c.photo {
        out.push(of("PHOTO", p, either(p)));
    }
    for p in &c.bday {
        out.push(of("BDAY", p, date(p)));
    }
    for p in &c.anniversary {
        out.push(of("ANNIVERSARY", p, date(p)));
    }
    inner!(gender, "GENDER");
    inner!(url, "URL");
    inner!(address, "ADR");
    each!(title, "TITLE");
    each!(role, "ROLE");
    inner!(logo, "LOGO");
    each!(org, "ORG");
    inner!(member, "MEMBER");
    for (n, l) in [("RELATED", &c.related), ("TEL", &c.tel)] {
        for p in l {
            out.push(of(n, p, either(p)));
        }
    }
    each!(email, "EMAIL");
    inner!(impp, "IMPP");
    each!(lang, "LANG");
    for p in &c.timezone {
        let i = match p {
            TimeZoneProperty::Text(p) => p.to_string(),
            TimeZoneProperty::Uri(p) => p.to_string(),
            TimeZoneProperty::UtcOffset(p) => p.to_string(),
        };
        out.push(of("TZ", p, Some(i)));
    }
    inner!(geo, "GEO");
    each!(categories, "CATEGORIES");
    each!(note, "NOTE");
    each!(prod_id, "PRODID");
    each!(rev, "REV");
    inner!(sound, "SOUND");
    for p in &c.uid {
        out.push(of("UID", p, either(p)));
    }
    inner!(client_pid_map, "CLIENTPIDMAP");
    for p in &c.key {
        out.push(of("KEY", p, either(p)));
    }
    inner!(fburl, "FBURL");
    inner!(cal_adr_uri, "CALADRURI");
    inner!(cal_uri, "CALURI");
    for p in &c.extensions {
        out.push(of(&p.name, p, Some(p.value.to_string())));
    }
    out
}

/// A value type read back from what it prints.
fn back(card: &Vcard, input: &str) -> Result<u64, Fail> {
    let mut n = 0;
    macro_rules! same {
        ($ty:ty, $v:expr) => {{
            let v: &$ty = $v;
            let s = v.to_string();
            match s.parse::<$ty>() {
                Ok(b) if b == *v => n += 1,
                o => {
                    return fail(
                        concat!(stringify!($ty), " does not read what it prints"),
                        input,
                        format!("{v:?} prints {s:?}, read as {:?}", o.map_err(|e| e.to_string())),
                    )
                }
            }
        }};
    }
    let uris = [
        &card.source,
        &card.url,
        &card.logo,
        &card.member,
        &card.impp,
        &card.geo,
        &card.sound,
        &card.fburl,
        &card.cal_adr_uri,
        &card.cal_uri,
    ];
    for p in uris.into_iter().flatten() {
        same!(vcard4::Uri, &p.value);
        match UriProperty::try_from(&p.to_string()[..]) {
            Ok(q) if q.value == p.value && q.group.is_none() && q.parameters.is_none() => (),
            o => {
                return fail(
                    "UriProperty does not read what it prints",
                    input,
                    format!("{p:?} {:?}", o.map_err(|e| e.to_string())),
                )
            }
        }
    }
    for l in [&card.photo, &card.related, &card.tel, &card.key] {
        for p in l {
            if let TextOrUriProperty::Uri(p) = p {
                same!(vcard4::Uri, &p.value);
            }
        }
    }
    if let Some(p) = &card.kind {
        same!(Kind, &p.value);
    }
    if let Some(p) = &card.gender {
        same!(Gender, &p.value);
        same!(Sex, &p.value.sex);
    }
    for p in &card.address {
        same!(DeliveryAddress, &p.value);
    }
    for p in &card.client_pid_map {
        same!(ClientPidMap, &p.value);
    }
    for p in [&card.bday, &card.anniversary].into_iter().flatten() {
        if let DateTimeOrTextProperty::DateTime(p) = p {
            for v in &p.value {
                let s = v.to_string();
                let b = s.parse::<DateAndOrTime>();
                if b.as_ref().ok().map(d_dt) != Some(d_dt(v)) {
                    return fail(
                        "DateAndOrTime does not read what it prints",
                        input,
                        format!("{v:?} prints {s:?}, read as {:?}", b.map_err(|e| e.to_string())),
                    );
                }
                n += 1;
            }
        }
    }
    for p in &card.timezone {
        if let TimeZoneProperty::UtcOffset(p) = p {
            let s = p.to_string();
            let b = s.parse::<UtcOffsetProperty>();
            if b.as_ref().ok().map(|b| (b.value, b.group.is_none(), b.parameters.is_none()))
                != Some((p.value, true, true))
            {
                return fail(
                    "UtcOffsetProperty does not read what it prints",
                    input,
                    format!("{p:?} prints {s:?}"),
                );
            }
            n += 1;
        }
    }
    Ok(n)
}

/// Every property of a card printed on its own.
fn parts(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = gen::card(r);
    let card = if r.bool() {
        let st = Style::random(r);
        let text = wire::document(r, &st, std::slice::from_ref(&m));
        cx.input = text.clone();
        match vcard4::parse(&text) {
            Ok(mut c) if c.len() == 1 => c.remove(0),
            o => {
                return fail(
                    "a valid card is refused",
                    &text,
                    format!("{:?}", o.map(|c| c.len()).map_err(|e| e.to_string())),
                )
            }
        }
    } else {
        cx.input = format!("{m:?}");
        match build(&m) {
            Ok(c) => c,
            Err(e) => return fail("a value cannot be made", format!("{m:?}"), e),
        }
    };
    let models = dump(&card);
    let text = card.to_string();
    let lines = match reader::logical_lines(&text) {
        Ok(l) => l,
        Err(e) => return fail("the written card is no vCard", &text, e),
    };
    let mut lines: Vec<&String> = lines
        .iter()
        .filter(|l| !["BEGIN:VCARD", "VERSION:4.0", "END:VCARD"].contains(&&l[..]))
        .collect();
    let input = cx.input.clone();
    let alone = printed(&card);
    if alone.len() != models.len() {
        return fail("harness", &input, "properties not enumerated");
    }
    for (p, m) in alone.iter().zip(&models) {
        if let Some(i) = &p.inner {
            if *i != p.value {
                return fail(
                    "a property does not print its value",
                    &input,
                    format!("{}: property prints {:?}, value {i:?}", p.name, p.value),
                );
            }
        }
        let group = p.group.as_ref().map(|g| format!("{g}.")).unwrap_or_default();
        let line = format!("{group}{}{}:{}", p.name, p.params, p.value);
        // it is a line of the card
        match lines.iter().position(|l| **l == line) {
            Some(i) => {
                lines.remove(i);
            }
            None => {
                return fail(
                    "a property prints something else than its line of the card",
                    &input,
                    format!("printed alone {line:?}; left in the card {lines:?}"),
                )
            }
        }
        // it means the property
        match reader::content_line(&line).and_then(|l| reader::interpret(&l)) {
            Ok(q) if q == *m => (),
            o => {
                return fail(
                    "what a property prints does not mean the property",
                    &input,
                    format!("{m:?}\nprints {line:?}\nread as {o:?}"),
                )
            }
        }
        cx.count("properties printed");
    }
    if !lines.is_empty() {
        return fail(
            "a line of the card that no property prints",
            &input,
            format!("{lines:?}"),
        );
    }
    let n = back(&card, &input)?;
    cx.seen(&input);
    cx.add("values read back", n);
    Ok(())
}

const KINDS_ALONE: [&str; 18] = [
    "ADR",
    "GENDER",
    "KIND",
    "CLIENTPIDMAP",
    "SOURCE",
    "BDAY",
    "REV",
    "TZ;VALUE=utc-offset",
    "X-A;VALUE=date",
    "X-A;VALUE=time",
    "X-A;VALUE=date-time",
    "X-A;VALUE=timestamp",
    "X-A;VALUE=date-and-or-time",
    "X-A;VALUE=boolean",
    "X-A;VALUE=integer",
    "X-A;VALUE=float",
    "X-A;VALUE=utc-offset",
    "X-A;VALUE=uri",
];

type Reading = (&'static str, Result<MVal, vcard4::Error>);

/// The value `raw` of a line starting with `head`, read without the card in
/// all the ways there are.
fn on_its_own(head: &str, raw: &str) -> Vec<Reading> {
    let one = !raw.contains(',');
    let dt = |v: Vec<vcard4::DateTime>| v.iter().map(d_datetime).collect::<Vec<_>>();
    let uri = || raw.parse::<vcard4::Uri>().map(|u| MVal::Uri(u.to_string()));
    let mut out: Vec<Reading> = Vec::new();
    match head {
        "ADR" => out.push((
            "DeliveryAddress",
            raw.parse().map(|a: DeliveryAddress| MVal::Adr(d_adr(&a))),
        )),
        "GENDER" => out.push((
            "Gender",
            raw.parse()
                .map(|g: Gender| MVal::Gender(d_sex(&g.sex), g.identity.clone())),
        )),
        "KIND" => out.push(("Kind", raw.parse().map(|k: Kind| MVal::Kind(d_kind(&k))))),
        "CLIENTPIDMAP" => out.push((
            "ClientPidMap",
            raw.parse()
                .map(|c: ClientPidMap| MVal::PidMap(c.source, c.uri.to_string())),
        )),
        "SOURCE" | "X-A;VALUE=uri" => {
            out.push(("Uri", uri()));
            out.push((
                "UriProperty",
                UriProperty::try_from(raw).map(|p| MVal::Uri(p.value.to_string())),
            ));
        }
        "BDAY" | "X-A;VALUE=date-and-or-time" => {
            if one {
                out.push((
                    "DateAndOrTime",
                    raw.parse().map(|d: DateAndOrTime| MVal::Dt(vec![d_dt(&d)])),
                ));
            }
            out.push((
                "parse_date_and_or_time_list",
                h::parse_date_and_or_time_list(raw).map(|l| MVal::Dt(l.iter().map(d_dt).collect())),
            ));
        }
        "REV" => {
            out.push((
                "parse_timestamp",
                h::parse_timestamp(raw).map(|v| {
                    let (d, t) = d_datetime(&v);
                    MVal::Rev(d, t)
                }),
            ));
            if one {
                out.push((
                    "parse_timestamp_list",
                    h::parse_timestamp_list(raw).map(|v| {
                        let (d, t) = d_datetime(&v[0]);
                        MVal::Rev(d, t)
                    }),
                ));
            }
        }
        "TZ;VALUE=utc-offset" | "X-A;VALUE=utc-offset" => {
            out.push((
                "UtcOffsetProperty",
                raw.parse()
                    .map(|p: UtcOffsetProperty| MVal::Off(p.value.whole_seconds())),
            ));
            out.push((
                "parse_utc_offset",
                h::parse_utc_offset(raw).map(|o| MVal::Off(o.whole_seconds())),
            ));
        }
        "X-A;VALUE=date" => {
            if one {
                out.push((
                    "parse_date",
                    h::parse_date(raw).map(|d| {
                        MVal::Date(vec![MDate {
                            y: d.year(),
                            m: d.month() as u8,
                            d: d.day(),
                        }])
                    }),
                ));
            }
            out.push((
                "parse_date_list",
                h::parse_date_list(raw).map(|l| MVal::Date(l.iter().map(d_date).collect())),
            ));
        }
        "X-A;VALUE=time" => {
            if one {
                out.push((
                    "parse_time",
                    h::parse_time(raw).map(|(t, o)| MVal::Time(vec![d_time(&t, &o)])),
                ));
            }
            out.push((
                "parse_time_list",
                h::parse_time_list(raw)
                    .map(|l| MVal::Time(l.iter().map(|(t, o)| d_time(t, o)).collect())),
            ));
        }
        "X-A;VALUE=date-time" => {
            if one {
                out.push((
                    "parse_date_time",
                    h::parse_date_time(raw).map(|d| MVal::DateTime(dt(vec![d]))),
                ));
            }
            out.push((
                "parse_date_time_list",
                h::parse_date_time_list(raw).map(|l| MVal::DateTime(dt(l))),
            ));
        }
        "X-A;VALUE=timestamp" => {
            if one {
                out.push((
                    "parse_timestamp",
                    h::parse_timestamp(raw).map(|d| MVal::Timestamp(dt(vec![d]))),
                ));
            }
            out.push((
                "parse_timestamp_list",
                h::parse_timestamp_list(raw).map(|l| MVal::Timestamp(dt(l))),
            ));
        }
        "X-A;VALUE=boolean" => out.push(("parse_boolean", h::parse_boolean(raw).map(MVal::Bool))),
        "X-A;VALUE=integer" => {
            out.push(("parse_integer_list", h::parse_integer_list(raw).map(MVal::Int)))
        }
        "X-A;VALUE=float" => out.push((
            "parse_float_list",
            h::parse_float_list(raw)
                .map(|l| MVal::Float(l.into_iter().map(f64::to_bits).collect())),
        )),
        _ => unreachable!(),
    }
    out
}

/// A value as it would be written, or something near to it.
fn raw(r: &mut Rng, head: &str) -> String {
    let (name, ty) = match head.split_once(";VALUE=") {
        Some((n, t)) => (n, Some(t)),
        None => (head, None),
    };
    let mut m = gen::prop(r, name, 0);
    if let Some(t) = ty {
        let t = VALUES.iter().find(|v| **v == t).unwrap();
        m.val = match name {
            "TZ" => MVal::Off(gen::offset(r)),
            _ => gen::ext_value(r, Some(t)),
        };
    } else if name == "BDAY" {
        m.val = MVal::Dt(gen::list(r, 3, gen::dt));
    }
    let st = Style::random(r);
    let mut s: Vec<char> = wire::value(r, &st, &m).chars().collect();
    if r.chance(1, 20) {
        s = gen::text(r).chars().collect();
    }
    let few = ['0', '1', '9', ';', ',', '-', '+', ':', 'T', 'Z', ' ', '.', 'x', 'M', '%', '/', 'é'];
    if r.bool() {
        for _ in 0..r.range(1, 3) {
            let i = r.below(s.len() + 1);
            match r.below(4) {
                0 if i < s.len() => {
                    s.remove(i);
                }
                1 if i < s.len() => s[i] = *r.of(&few),
                2 => s.truncate(i),
                _ => s.insert(i, *r.of(&few)),
            }
        }
    }
    let keep = matches!(head, "ADR" | "GENDER");
    s.into_iter()
        .filter(|c| !c.is_control() && (keep || *c != '\\'))
        .collect()
}

/// A text read by the value type is read the same way inside a card.
fn alone(cx: &mut Cx) -> R {
    let head = KINDS_ALONE[(cx.idx % KINDS_ALONE.len() as u64) as usize];
    let v = raw(&mut cx.rng, head);
    let text = doc(&[format!("{head}:{v}")]);
    cx.input = text.clone();
    let inside = vcard4::parse(&text);
    let name = head.split(';').next().unwrap();
    let values: Result<Vec<MVal>, _> = inside.map(|c| {
        dump_all(&c)
            .into_iter()
            .flatten()
            .filter(|p| p.name == name)
            .map(|p| p.val)
            .collect()
    });
    for (how, own) in on_its_own(head, &v) {
        match (&own, &values) {
            (Err(_), Err(_)) => cx.count("refused by both"),
            (Ok(a), Ok(b)) if [same_nan(a)] == b.iter().map(same_nan).collect::<Vec<_>>()[..] => {
                cx.count("read by both")
            }
            _ => {
                return fail(
                    "a value is read differently on its own and in a card",
                    &text,
                    format!(
                        "by {how} {:?}, in the card {:?}",
                        own.map_err(|e| e.to_string()),
                        values.map_err(|e| e.to_string())
                    ),
                )
            }
        }
    }
    cx.seen(&text);
    Ok(())
}

fn same_nan(v: &MVal) -> MVal {
    match v {
        MVal::Float(l) => MVal::Float(
            l.iter()
                .map(|b| {
                    if f64::from_bits(*b).is_nan() {
                        f64::NAN.to_bits()
                    } else {
                        *b
                    }
                })
                .collect(),
        ),
        _ => v.clone(),
    }
}

/// Date and DateTime print RFC 3339 and read it back.
fn rfc3339(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let d = gen::date(r);
    let t = gen::time(r);
    let date = vcard4::Date::from(b_date(&d));
    let s = date.to_string();
    cx.input = s.clone();
    let want = format!("{:04}-{:02}-{:02}", d.y, d.m, d.d);
    if s != want {
        return fail("a Date is not printed as in RFC 3339", &want, s);
    }
    match s.parse::<vcard4::Date>() {
        Ok(b) if b == date => (),
        o => {
            return fail(
                "a Date does not read what it prints",
                &s,
                format!("{:?}", o.map_err(|e| e.to_string())),
            )
        }
    }
    let dt = b_datetime(&d, &t);
    let s = dt.to_string();
    cx.input = s.clone();
    let z = if t.off == 0 {
        "Z".to_string()
    } else {
        let o = wire::w_off(t.off);
        format!("{}:{}", &o[..3], &o[3..])
    };
    let want = format!("{want}T{:02}:{:02}:{:02}{z}", t.h, t.m, t.s);
    if s != want {
        return fail("a DateTime is not printed as in RFC 3339", &want, s);
    }
    match s.parse::<vcard4::DateTime>() {
        Ok(b) if d_datetime(&b) == (d, t) => (),
        o => {
            return fail(
                "a DateTime does not read what it prints",
                &s,
                format!("{:?}", o.map_err(|e| e.to_string())),
            )
        }
    }
    cx.seen(&s);
    cx.count("RFC 3339 texts");
    // and rejects what is no such text
    let mut b: Vec<char> = s.chars().collect();
    let r = &mut cx.rng;
    let i = r.below(b.len());
    match r.below(3) {
        0 => {
            b.remove(i);
        }
        1 => b.insert(i, *r.of(&['0', '9', '-', 'T', 'x'])),
        _ => b[i] = *r.of(&['x', ' ', '/']),
    }
    let bad: String = b.into_iter().collect();
    if !is_rfc3339(&bad) {
        if let Ok(v) = bad.parse::<vcard4::DateTime>() {
            return fail("a DateTime is read from something else", &bad, format!("{v:?}"));
        }
        cx.count("other texts refused");
    }
    Ok(())
}

/// Of the shape of an RFC 3339 date-time (any separator, fraction allowed).
fn is_rfc3339(s: &str) -> bool {
    let b = s.as_bytes();
    let at = |i: usize, c: &[u8]| b.get(i).is_some_and(|x| c.contains(x));
    if !s.is_ascii() || b.len() < 20 {
        return false;
    }
    let digits = |a: usize, n: usize| b.len() >= a + n && b[a..a + n].iter().all(u8::is_ascii_digit);
    if !(digits(0, 4) && at(4, b"-") && digits(5, 2) && at(7, b"-") && digits(8, 2)) {
        return false;
    }
    if !(digits(11, 2) && at(13, b":") && digits(14, 2) && at(16, b":") && digits(17, 2)) {
        return false;
    }
    let mut i = 19;
    if at(i, b".") {
        i += 1;
        let j = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == j {
            return false;
        }
    }
    match &b[i..] {
        b"Z" | b"z" => true,
        [b'+' | b'-', z @ ..] => {
            z.len() == 5 && z[2] == b':' && [0, 1, 3, 4].iter().all(|k| z[*k].is_ascii_digit())
        }
        _ => false,
    }
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "every property of random cards is printed on its own and compared with its line of the written card, and random value texts are read both by the value type and inside a card; a case is non-trivial when at least one printed part or one such pair of readings was compared",
        fams: vec![
            fam("parts", parts, 8_000, 500_000),
            fam("alone", alone, 60_000, 4_000_000),
            fam("rfc3339", rfc3339, 20_000, 1_000_000),
        ],
        must: vec![
            "properties printed",
            "values read back",
            "refused by both",
            "read by both",
            "RFC 3339 texts",
            "other texts refused",
        ],
    }
}

// ----------------------------------------------------------------- C26

fn other_text(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(6) {
        0 if !c.is_empty() => {
            c.pop();
        }
        1 if !c.is_empty() => {
            let i = r.below(c.len());
            let o = c[i];
            c[i] = if o.is_ascii_lowercase() {
                o.to_ascii_uppercase()
            } else {
                o.to_ascii_lowercase()
            };
            if c[i] == o {
                c[i] = if o == 'q' { 'p' } else { 'q' };
            }
        }
        2 if !c.is_empty() => {
            let i = r.below(c.len());
            c.remove(i);
        }
        3 => c.insert(0, ' '),
        4 => {
            let i = r.below(c.len() + 1);
            c.insert(i, *r.of(&['a', '0', ';', ',', '\\', 'é', '\u{301}']))
        }
        _ => c.push(*r.of(&[' ', 'a', '\n', '\u{200d}'])),
    }
    c.into_iter().collect()
}

fn other_list<T: Clone>(r: &mut Rng, l: &mut Vec<T>, f: impl Fn(&mut Rng, &T) -> T) {
    let n = l.len();
    match r.below(5) {
        0 => l.push(l[n - 1].clone()),
        1 if n > 1 => {
            let i = r.below(n);
            l.remove(i);
        }
        2 if n > 1 => {
            let i = r.below(n - 1);
            l.swap(i, i + 1);
        }
        _ => {
            let i = r.below(n);
            l[i] = f(r, &l[i]);
        }
    }
}

fn other_opt(r: &mut Rng, o: &mut Option<String>) {
    *o = match o {
        Some(_) if r.chance(1, 4) => None,
        Some(s) => Some(other_text(r, s)),
        None => Some("z".into()),
    };
}

fn other_time(r: &mut Rng, t: &MTime) -> MTime {
    let mut t = *t;
    match r.below(3) {
        0 => t.h = (t.h + 1) % 24,
        1 => t.m = (t.m + 1) % 60,
        _ => t.s = (t.s + 1) % 60,
    }
    t
}

fn other_date(d: &MDate) -> MDate {
    let mut d = *d;
    d.d = if d.d == 1 { 2 } else { 1 };
    d
}

fn other_dt(r: &mut Rng, d: &MDt) -> MDt {
    match d {
        MDt::D(d) => MDt::D(other_date(d)),
        MDt::T(t) => {
            if r.bool() {
                let mut t = *t;
                t.off = if t.off == 0 { 3600 } else { -t.off };
                MDt::T(t)
            } else {
                MDt::T(other_time(r, t))
            }
        }
        MDt::DT(d, t) => {
            if r.bool() {
                MDt::DT(other_date(d), *t)
            } else {
                MDt::DT(*d, other_time(r, t))
            }
        }
    }
}

fn other_val(r: &mut Rng, v: &mut MVal) {
    match v {
        MVal::Text(s) => *s = other_text(r, s),
        MVal::List(l) => other_list(r, l, |r, s| other_text(r, s)),
        MVal::Uri(u) => *u = gen::uri(r),
        MVal::Adr(a) => {
            let i = r.below(7);
            if r.chance(1, 4) {
                a.swap(i, (i + 1) % 7)
            } else {
                other_opt(r, &mut a[i])
            }
        }
        MVal::Kind(k) => *k = r.pick(&KINDS),
        MVal::Gender(s, i) => {
            if r.bool() {
                *s = r.pick(&SEXES)
            } else {
                other_opt(r, i)
            }
        }
        MVal::Lang(l) => *l = gen::lang_value(r),
        MVal::Dt(l) => other_list(r, l, other_dt),
        MVal::Rev(d, t) => match r.below(2) {
            0 => *d = other_date(d),
            _ => *t = other_time(r, t),
        },
        MVal::Off(o) => *o = if *o == 0 { 60 } else { -*o },
        MVal::PidMap(n, u) => match r.below(2) {
            0 => *n = if *n == 1 { 2 } else { *n - 1 },
            _ => *u = gen::uri(r),
        },
        MVal::Int(l) => other_list(r, l, |_, n| n ^ 1),
        MVal::Float(l) => other_list(r, l, |_, n| n ^ 1),
        MVal::Bool(b) => *b = !*b,
        MVal::Date(l) => other_list(r, l, |_, d| other_date(d)),
        MVal::Time(l) => other_list(r, l, other_time),
        MVal::DateTime(l) | MVal::Timestamp(l) => {
            other_list(r, l, |r, (d, t)| (*d, other_time(r, t)))
        }
    }
}

/// Change one part of the parameters.
fn other_params(r: &mut Rng, p: &mut MParams) {
    match r.below(14) {
        0 => {
            p.language = match &p.language {
                Some(_) if r.bool() => None,
                _ => Some(gen::lang_value(r)),
            }
        }
        1 => {
            p.value = match p.value {
                Some(_) if r.bool() => None,
                _ => Some(r.pick(&VALUES)),
            }
        }
        2 => {
            p.pref = match p.pref {
                Some(_) if r.bool() => None,
                Some(n) => Some(n % 100 + 1),
                None => Some(1),
            }
        }
        3 => other_opt(r, &mut p.alt_id),
        4 => match &mut p.pid {
            Some(l) if r.bool() => other_list(r, l, |r, (a, b)| match r.below(3) {
                0 => (a ^ 1, *b),
                1 => (*a, b.map(|b| b ^ 1)),
                _ => (*a, if b.is_none() { Some(1) } else { None }),
            }),
            Some(_) => p.pid = None,
            None => p.pid = Some(vec![(1, None)]),
        },
        5 | 6 => match &mut p.types {
            Some(l) if r.chance(3, 4) => other_list(r, l, |r, _| gen::mtype(r)),
            Some(_) => p.types = None,
            None => p.types = Some(vec![gen::mtype(r)]),
        },
        7 => {
            p.media_type = match &p.media_type {
                Some(_) if r.bool() => None,
                _ => Some(gen::mime(r)),
            }
        }
        8 => other_opt(r, &mut p.calscale),
        9 => match &mut p.sort_as {
            Some(l) if r.bool() => other_list(r, l, |r, s| other_text(r, s)),
            Some(_) => p.sort_as = None,
            None => p.sort_as = Some(vec!["s".into()]),
        },
        10 => {
            p.geo = match &p.geo {
                Some(_) if r.bool() => None,
                _ => Some(gen::uri(r)),
            }
        }
        11 => {
            p.tz = match &p.tz {
                Some(_) if r.chance(1, 4) => None,
                Some(MTz::Text(s)) => Some(MTz::Text(other_text(r, s))),
                Some(MTz::Off(o)) => Some(if r.bool() {
                    MTz::Off(if *o == 0 { 60 } else { -o })
                } else {
                    MTz::Text(wire::w_off(*o))
                }),
                _ => Some(MTz::Uri(gen::uri(r))),
            }
        }
        12 => other_opt(r, &mut p.label),
        _ => match &mut p.ext {
            Some(l) if r.chance(3, 4) => other_list(r, l, |r, (n, v)| {
                let (mut n, mut v) = (n.clone(), v.clone());
                match r.below(3) {
                    0 => n.push('A'),
                    _ => other_list(r, &mut v, |r, s| other_text(r, s)),
                }
                (n, v)
            }),
            Some(_) => p.ext = None,
            None => p.ext = Some(vec![("X-E".into(), vec!["e".into()])]),
        },
    }
}

/// A card that differs in one place.
fn other_card(r: &mut Rng, c: &MCard) -> MCard {
    let mut c = c.clone();
    let i = r.below(c.len());
    match r.below(12) {
        0 => {
            c.remove(i);
        }
        1 => {
            let p = gen::any_prop(r, 3);
            c.retain(|q| !(gen::SINGLE.contains(&&q.name[..]) && q.name == p.name));
            c.push(p);
        }
        2 => {
            let j = r.below(c.len());
            c.swap(i, j)
        }
        3 => {
            c[i].group = match &c[i].group {
                Some(_) if r.bool() => None,
                Some(g) => Some(format!("{g}x")),
                None => Some("g".into()),
            }
        }
        4 if gen::is_ext(&c[i].name) => c[i].name.push('Z'),
        5..=7 => {
            let mut p = c[i].params.take().unwrap_or_default();
            other_params(r, &mut p);
            c[i].params = Some(p);
        }
        8 => c[i].params = match &c[i].params {
            Some(_) => None,
            None => Some(MParams::default()),
        },
        _ => other_val(r, &mut c[i].val),
    }
    c
}

/// Coarser than any sensible equality of the external types.
fn coarse(c: &MCard) -> String {
    let mut c = c.clone();
    let uri = |s: &mut String| *s = s.to_lowercase();
    for p in &mut c {
        match &mut p.val {
            MVal::Uri(u) | MVal::Lang(u) | MVal::PidMap(_, u) => uri(u),
            MVal::Rev(d, t) => {
                let s = super::dates::instant(d, t);
                p.val = MVal::Int(vec![s]);
            }
            MVal::DateTime(l) => {
                let l = l.iter().map(|(d, t)| super::dates::instant(d, t)).collect();
                p.val = MVal::Int(l);
                p.name += " date-time";
            }
            MVal::Timestamp(l) => {
                let l = l.iter().map(|(d, t)| super::dates::instant(d, t)).collect();
                p.val = MVal::Int(l);
                p.name += " timestamp";
            }
            MVal::Dt(l) => {
                let l = l
                    .iter()
                    .map(|v| match v {
                        MDt::DT(d, t) => format!("{}", super::dates::instant(d, t)),
                        v => format!("{v:?}"),
                    })
                    .collect();
                p.val = MVal::List(l);
            }
            MVal::Float(l) => {
                for f in l {
                    if f64::from_bits(*f) == 0.0 {
                        *f = 0
                    }
                }
            }
            _ => (),
        }
        if let Some(q) = &mut p.params {
            q.language.iter_mut().for_each(uri);
            q.media_type.iter_mut().for_each(uri);
            q.geo.iter_mut().for_each(uri);
            if let Some(MTz::Uri(u)) = &mut q.tz {
                uri(u)
            }
        }
    }
    format!("{:?}", sorted(c))
}

fn equality(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = gen::card(r);
    let n = other_card(r, &m);
    cx.input = format!("{m:?}\n{n:?}");
    let input = cx.input.clone();
    let (a, b) = match (build(&m), build(&n)) {
        (Ok(a), Ok(b)) => (a, b),
        // a reason not to compare, not an error: the change may be one
        // that no value can have
        (Ok(_), Err(_)) => return Ok(()),
        (Err(e), _) => return fail("a value cannot be made", &input, e),
    };
    cx.seen(&input);
    if finite(&m) {
        let again = build(&m).unwrap();
        let c = a.clone();
        for (x, y, what) in [
            (&a, &a, "a card is not equal to itself"),
            (&a, &again, "two cards with the same content are not equal"),
            (&a, &c, "a clone is not equal"),
            (&c, &a, "a clone is not equal (other way round)"),
        ] {
            if x != y {
                return fail(what, &input, format!("{x:?}\n{y:?}"));
            }
        }
        cx.count("clones");
    }
    let c = a.clone();
    if let Some(d) = diff(&[dump(&a)], &[dump(&c)]) {
        return fail("a clone has another content", &input, d);
    }
    // the clone is independent of the original
    let text = c.to_string();
    let shown = format!("{c:?}");
    drop(a);
    if c.to_string() != text || format!("{c:?}") != shown {
        return fail("a clone changes with its original", &input, text);
    }
    let a = c;
    // a different card
    if coarse(&m) == coarse(&n) {
        cx.count("same meaning");
        return Ok(());
    }
    for (x, y) in [(&a, &b), (&b, &a)] {
        if x == y {
            return fail("different cards are equal", &input, format!("{x:?}\n{y:?}"));
        }
    }
    cx.count("different cards");
    // and each pair of parts of it
    let (pa, pb) = (dump(&a), dump(&b));
    if pa.len() == pb.len() {
        cx.count("one part differs");
    }
    Ok(())
}

/// Cards that were parsed are equal exactly when they hold the same.
fn parsed(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = gen::card(r);
    let n = if r.bool() { m.clone() } else { other_card(r, &m) };
    let st = Style::random(r);
    let a = wire::document(r, &st, std::slice::from_ref(&m));
    let b = match build(&n) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let _ = PLAIN;
    cx.input = a.clone();
    let x = match vcard4::parse(&a) {
        Ok(mut c) if c.len() == 1 => c.remove(0),
        _ => return fail("a valid card is refused", &a, ""),
    };
    cx.seen(&a);
    if sorted(m.clone()) == sorted(n.clone()) {
        if finite(&m) && (x != b || b != x) {
            return fail("a parsed card is not equal to the same card", &a, format!("{x:?}\n{b:?}"));
        }
        cx.count("parsed and made, equal");
    } else if coarse(&m) != coarse(&n) {
        if x == b || b == x {
            return fail("different cards are equal", &a, format!("{x:?}\n{b:?}"));
        }
        cx.count("parsed and made, different");
    }
    Ok(())
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "random cards are compared with clones, with cards of the same content and with cards that differ in one place; a case is non-trivial when such a pair was compared",
        fams: vec![
            fam("equality", equality, 40_000, 2_000_000),
            fam("parsed", parsed, 20_000, 1_000_000),
        ],
        must: vec![
            "clones",
            "different cards",
            "one part differs",
            "parsed and made, equal",
            "parsed and made, different",
        ],
    }
}
