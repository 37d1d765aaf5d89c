//! C19: JSON round trip.

use super::round::{accepted, finite, write_all};
use super::text::{p, pv};
use super::*;
use crate::rng::Rng;
use crate::{gen, mutate, wire};
use vcard4::Vcard;

/// The ways to write JSON and read it again.
const WAYS: usize = 5;

fn way(k: usize, c: &Vcard) -> Result<(String, Vcard), String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(match k {
        0 => {
            let s = serde_json::to_string(c).map_err(e)?;
            let c = serde_json::from_str(&s).map_err(|x| format!("{x} in {s}"))?;
            (s, c)
        }
        1 => {
            let s = serde_json::to_string_pretty(c).map_err(e)?;
            let c = serde_json::from_str(&s).map_err(|x| format!("{x} in {s}"))?;
            (s, c)
        }
        2 => {
            let v = serde_json::to_value(c).map_err(e)?;
            let s = v.to_string();
            let c = serde_json::from_value(v).map_err(|x| format!("{x} in {s}"))?;
            (s, c)
        }
        3 => {
            let b = serde_json::to_vec(c).map_err(e)?;
            let s = String::from_utf8_lossy(&b).to_string();
            let c = serde_json::from_slice(&b).map_err(|x| format!("{x} in {s}"))?;
            (s, c)
        }
        _ => {
            let mut b = Vec::new();
            serde_json::to_writer(&mut b, c).map_err(e)?;
            let s = String::from_utf8_lossy(&b).to_string();
            let c = serde_json::from_reader(&b[..]).map_err(|x| format!("{x} in {s}"))?;
            (s, c)
        }
    })
}

fn json(cx: &mut Cx, route: &str, input: &str, c: &Vcard) -> R {
    let k = cx.rng.below(WAYS);
    let (s, back) = match way(k, c) {
        Ok(x) => x,
        Err(e) => return fail(format!("{route}: no JSON round trip"), input, e),
    };
    cx.add("JSON bytes", s.len() as u64);
    let a = dump(c);
    let b = dump(&back);
    if let Some(d) = diff(&[a], &[b]) {
        return fail(
            format!("{route}: another card after the JSON round trip"),
            input,
            format!("{d}\n JSON {s}"),
        );
    }
    if *c != back {
        return fail(
            format!("{route}: not equal after the JSON round trip"),
            input,
            format!("{c:?}\n{back:?}\n JSON {s}"),
        );
    }
    if c.to_string() != back.to_string() {
        return fail(
            format!("{route}: written differently after the JSON round trip"),
            input,
            format!("{:?}\n{:?}\n JSON {s}", c.to_string(), back.to_string()),
        );
    }
    if format!("{c:?}") != format!("{back:?}") {
        return fail(
            format!("{route}: another variant after the JSON round trip"),
            input,
            format!("{c:?}\n{back:?}\n JSON {s}"),
        );
    }
    cx.count(route);
    Ok(())
}

fn modelled(cx: &mut Cx, m: &MCard, shown: &str) -> R {
    match build(m) {
        Ok(c) => json(cx, "built", shown, &c)?,
        Err(e) => return fail("model", shown, e),
    }
    let r = &mut cx.rng;
    let st = wire::Style::random(r);
    let text = wire::document(r, &st, std::slice::from_ref(m));
    match vcard4::parse(&text) {
        Ok(l) => {
            for c in &l {
                json(cx, "parsed", &text, c)?;
            }
            // several cards at once
            let s = serde_json::to_string(&l).unwrap_or_default();
            match serde_json::from_str::<Vec<Vcard>>(&s) {
                Ok(b) if b == l => Ok(()),
                x => fail("a list of cards", &text, format!("{x:?}\n JSON {s}")),
            }
        }
        Err(e) => fail("a valid card is rejected", &text, e.to_string()),
    }
}

/// Large cards.
fn sized(cx: &mut Cx) -> R {
    let Some((what, m)) = sizes::any(cx) else {
        return Ok(());
    };
    modelled(cx, &m, &what)?;
    cx.count("sizes");
    cx.seen(&what);
    Ok(())
}

fn typed(m: &MCard, cx: &mut Cx) {
    for q in m {
        let v = match &q.val {
            MVal::Text(_) => "text",
            MVal::List(_) => "list",
            MVal::Uri(_) => "uri",
            MVal::Adr(_) => "address",
            MVal::Kind(_) => "kind",
            MVal::Gender(..) => "gender",
            MVal::Lang(_) => "language",
            MVal::Dt(_) => "date-and-or-time",
            MVal::Rev(..) => "revision",
            MVal::Off(_) => "offset",
            MVal::PidMap(..) => "pid map",
            MVal::Int(_) => "integer",
            MVal::Float(_) => "float",
            MVal::Bool(_) => "boolean",
            MVal::Date(_) => "date",
            MVal::DateTime(_) => "date-time",
            MVal::Time(_) => "time",
            MVal::Timestamp(_) => "timestamp",
        };
        cx.count(&format!("value: {v}"));
        if let Some(p) = &q.params {
            if let Some(t) = &p.tz {
                cx.count(match t {
                    MTz::Text(_) => "TZ parameter: text",
                    MTz::Uri(_) => "TZ parameter: uri",
                    MTz::Off(_) => "TZ parameter: offset",
                });
            }
            if let Some(v) = p.value {
                cx.count(&format!("VALUE={v}"));
            }
        }
    }
}

/// One property next to the FN.
fn single(cx: &mut Cx) -> R {
    let i = cx.idx as usize % (FIELDS.len() + 3 * VALUES.len());
    let r = &mut cx.rng;
    let density = [0, 20, 60, 100][r.below(4)];
    let q = if i < FIELDS.len() {
        gen::prop(r, FIELDS[i], density)
    } else {
        let ty = VALUES[(i - FIELDS.len()) % VALUES.len()];
        let mut params = gen::params(r, "X-A", Some(ty), density).unwrap_or_default();
        params.value = Some(ty);
        MProp {
            params: Some(params),
            ..p("X-A", gen::ext_value(r, Some(ty)))
        }
    };
    let mut m = vec![p("FN", MVal::Text("x".into()))];
    if q.name == "MEMBER" {
        m.push(p("KIND", MVal::Kind("group")));
    }
    if q.name == "FN" {
        m.clear();
    }
    m.push(q);
    typed(&m, cx);
    let shown = format!("{m:?}");
    cx.seen(&shown);
    modelled(cx, &m, &shown)
}

fn whole(cx: &mut Cx) -> R {
    let m = gen::card(&mut cx.rng);
    typed(&m, cx);
    let shown = format!("{m:?}");
    cx.seen(&shown);
    modelled(cx, &m, &shown)
}

/// Texts that look like something else.
fn disguised(cx: &mut Cx) -> R {
    const LOOKS: [&str; 44] = [
        "true",
        "false",
        "0",
        "-1",
        "1.5",
        "1e3",
        "null",
        "[]",
        "{}",
        "\"x\"",
        "2020-01-02",
        "20200102",
        "2020-01-02T03:04:05Z",
        "20200102T030405Z",
        "10:20:30",
        "102030",
        "T102030",
        "--0102",
        "---02",
        "+0100",
        "-0530",
        "+01:00",
        "Z",
        "[1,0,0]",
        "1,0,0",
        "1;2;3",
        "en",
        "en-US",
        "de-CH-1996",
        "text/plain",
        "image/png",
        "home",
        "work",
        "Text",
        "group",
        "M",
        "F;x",
        "1.2",
        "urn",
        "x/y",
        "",
        " ",
        "-0.0",
        "2020-01-02T03:04:05+00:00",
    ];
    let r = &mut cx.rng;
    let w = |r: &mut Rng| r.pick(&LOOKS).to_string();
    let n = |r: &mut Rng| {
        let s = r.pick(&LOOKS[..40]).to_string();
        s
    };
    let mut m = vec![p("FN", MVal::Text(w(r)))];
    for _ in 0..r.range(1, 6) {
        let q = match r.below(16) {
            0 => p("X-A", MVal::Text(w(r))),
            1 => pv("X-A", "text", MVal::Text(w(r))),
            2 => p("TEL", MVal::Text(w(r))),
            3 => pv(
                "TEL",
                "text",
                MVal::Text(if r.bool() { gen::uri(r) } else { w(r) }),
            ),
            4 => p("RELATED", MVal::Text(w(r))),
            5 => pv("RELATED", "text", MVal::Text(gen::uri(r))),
            6 => p("TZ", MVal::Text(if r.bool() { gen::uri(r) } else { w(r) })),
            7 => pv(
                "TZ",
                "text",
                MVal::Text(if r.bool() { gen::uri(r) } else { w(r) }),
            ),
            8 => p("KEY", MVal::Text(w(r))),
            9 => pv("KEY", "text", MVal::Text(gen::uri(r))),
            10 => p("PHOTO", MVal::Text(w(r))),
            11 => pv("PHOTO", "text", MVal::Text(gen::uri(r))),
            12 => p("CATEGORIES", MVal::List(vec![n(r), n(r)])),
            13 => p("NOTE", MVal::Text(w(r))),
            14 => pv("X-A", "text", MVal::Text(gen::uri(r))),
            _ => p("X-A", MVal::Text(gen::uri(r))),
        };
        m.push(q);
    }
    if r.bool() {
        m.push(pv("BDAY", "text", MVal::Text(w(r))));
    }
    if r.bool() {
        m.push(pv("ANNIVERSARY", "text", MVal::Text(w(r))));
    }
    if r.bool() {
        m.push(pv(
            "UID",
            "text",
            MVal::Text(if r.bool() { gen::uri(r) } else { w(r) }),
        ));
    } else if r.bool() {
        m.push(p("UID", MVal::Text(w(r))));
    }
    for q in m.iter_mut().skip(1) {
        if r.chance(1, 4) {
            let mut x = q.params.take().unwrap_or_default();
            match r.below(6) {
                0 => x.alt_id = Some(n(r)),
                1 => x.calscale = Some(n(r)),
                2 => x.sort_as = Some(vec![n(r).replace(',', ";"), n(r).replace(',', ";")]),
                3 => x.ext = Some(vec![("X-P".into(), vec![n(r).replace(',', ";")])]),
                4 => x.pref = Some(r.range(1, 100) as u8),
                _ => {
                    if gen::type_allowed(&q.name) {
                        x.types = Some(vec![MType::Ext("home".into()), MType::Home]);
                    } else {
                        x.alt_id = Some(n(r));
                    }
                }
            }
            // an empty or quoted parameter value is another matter
            let bad = |s: &String| s.is_empty() || s.contains('"');
            if x.alt_id.as_ref().is_some_and(bad) {
                x.alt_id = None;
            }
            if x.calscale.as_ref().is_some_and(bad) {
                x.calscale = None;
            }
            if x.sort_as.as_ref().is_some_and(|l| l.iter().any(bad)) {
                x.sort_as = None;
            }
            if x.ext.as_ref().is_some_and(|l| l[0].1.iter().any(bad)) {
                x.ext = None;
            }
            q.params = if x == MParams::default() {
                None
            } else {
                Some(x)
            };
        }
    }
    let shown = format!("{m:?}");
    cx.seen(&shown);
    let m = sorted(m);
    match build(&m) {
        Ok(c) => json(cx, "disguised", &shown, &c),
        Err(e) => fail("model", &shown, e),
    }
}

/// Whatever is accepted.
fn tolerated(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let input = if r.chance(3, 4) {
        mutate::mutated(r)
    } else {
        mutate::soup(r)
    };
    cx.input = input.clone();
    for (_, cards) in accepted(&input) {
        cx.seen(&input);
        for c in &cards {
            if !finite(&dump(c)) {
                cx.count("non-finite floats left out");
                continue;
            }
            if write_all(std::slice::from_ref(c)).is_none() {
                return fail("can't be written", &input, "");
            }
            json(cx, "accepted", &input, c)?;
        }
    }
    Ok(())
}

/// Values in an otherwise empty typed property.
fn values(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let ty: &str = r.pick(&VALUES);
    let n: &str = r.pick(&[
        "X-A",
        "X-A",
        "BDAY",
        "ANNIVERSARY",
        "TZ",
        "TEL",
        "UID",
        "KEY",
        "RELATED",
        "PHOTO",
        "REV",
    ]);
    let v = mutate::value(r);
    let plain = r.chance(1, 3);
    let input = format!(
        "BEGIN:VCARD\nVERSION:4.0\nFN:x\n{n}{}:{v}\nEND:VCARD\n",
        if plain {
            String::new()
        } else {
            format!(";VALUE={ty}")
        },
    );
    cx.input = input.clone();
    let loose = cx.rng.bool();
    let got = if loose {
        vcard4::parse_loose(&input)
    } else {
        vcard4::parse(&input)
    };
    if let Ok(l) = got {
        cx.seen(&input);
        for c in &l {
            if finite(&dump(c)) {
                json(cx, "values", &input, c)?;
            }
        }
    }
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "a card is written to JSON and read back by serde_json in one of five ways; the model dump, Debug form, equality and written text of both are compared",
        fams: vec![
            fam("single", single, 8000, 1_500_000),
            exhaustive("sizes", sized, sizes::ALL),
            fam("whole", whole, 3000, 400_000),
            fam("disguised", disguised, 12_000, 2_000_000),
            fam("tolerated", tolerated, 8000, 1_500_000),
            fam("values", values, 16_000, 3_000_000),
        ],
        must: vec![
            "built", "parsed", "disguised", "accepted", "values",
            "value: text", "value: list", "value: uri", "value: address",
            "value: kind", "value: gender", "value: language",
            "value: date-and-or-time", "value: revision", "value: offset",
            "value: pid map", "value: integer", "value: float",
            "value: boolean", "value: date", "value: date-time",
            "value: time", "value: timestamp", "TZ parameter: text",
            "TZ parameter: uri", "TZ parameter: offset",
        ],
    }
}
