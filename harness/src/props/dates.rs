//! C14 (dates and times), C15 (offsets).

use super::*;
use crate::rng::Rng;
use crate::{gen, wire};
use vcard4::helper as h;

pub fn doc(lines: &[String]) -> String {
    let mut s = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n");
    for l in lines {
        s.push_str(l);
        s.push_str("\r\n");
    }
    s.push_str("END:VCARD\r\n");
    s
}

/// What a helper function must say about a text.
pub fn expect<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(
    what: &str,
    input: &str,
    got: Result<T, E>,
    want: Option<T>,
) -> R {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => fail(
            format!("{what}: wrong result"),
            input,
            format!("expected {w:?}, got {g:?}"),
        ),
    }
}

fn p_date(s: &str) -> Result<MDate, vcard4::Error> {
    h::parse_date(s).map(|d| d_date(&d))
}
fn p_time(s: &str) -> Result<MTime, vcard4::Error> {
    h::parse_time(s).map(|(t, o)| d_time(&t, &o))
}
fn p_date_time(s: &str) -> Result<(MDate, MTime), vcard4::Error> {
    h::parse_date_time(s).map(|d| d_datetime(&d))
}
fn p_timestamp(s: &str) -> Result<(MDate, MTime), vcard4::Error> {
    h::parse_timestamp(s).map(|d| d_datetime(&d))
}
fn p_dt(s: &str) -> Result<MDt, vcard4::Error> {
    s.parse::<vcard4::property::DateAndOrTime>()
        .map(|d| d_dt(&d))
}
fn p_off(s: &str) -> Result<i32, vcard4::Error> {
    h::parse_utc_offset(s).map(|o| o.whole_seconds())
}

/// Days since 1970-01-01 of the proleptic Gregorian calendar.
pub fn days(d: &MDate) -> i64 {
    let (y, m, d) = (d.y as i64, d.m as i64, d.d as i64);
    let before = |y: i64| {
        y * 365 + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400)
    };
    let mut n = before(y) - before(1970);
    for k in 1..m {
        n += gen::days_in_month(y as i32, k as u8) as i64;
    }
    n + d - 1
}

/// Seconds since the epoch.
pub fn instant(d: &MDate, t: &MTime) -> i64 {
    days(d) * 86400 + t.h as i64 * 3600 + t.m as i64 * 60 + t.s as i64 - t.off as i64
}

fn years(cx: &mut Cx) -> R {
    // one year per case; every day in the thorough tier
    let y = cx.idx as i32;
    let mut picked = Vec::new();
    for m in 1..=12u8 {
        let n = gen::days_in_month(y, m);
        if cx.thorough {
            picked.extend((1..=n).map(|d| MDate { y, m, d }));
        } else {
            picked.push(MDate { y, m, d: 1 });
            picked.push(MDate { y, m, d: n });
            let d = cx.rng.range(2, n as i64 - 1) as u8;
            picked.push(MDate { y, m, d });
        }
    }
    for d in &picked {
        let s = wire::w_date(d);
        cx.input = s.clone();
        expect("parse_date", &s, p_date(&s), Some(*d))?;
        let got = h::parse_date(&s).ok().map(|d| d.to_julian_day() as i64);
        // day number of 1970-01-01
        expect::<_, ()>(
            "parse_date day number",
            &s,
            Ok(got),
            Some(Some(days(d) + 2_440_588)),
        )?;
    }
    cx.add("dates parsed", picked.len() as u64);
    // the spellings with separators and the reduced ones
    let k = cx.rng.below(picked.len());
    let d = picked[k];
    let s = format!("{:04}-{:02}-{:02}", d.y, d.m, d.d);
    expect("parse_date", &s, p_date(&s), Some(d))?;
    let s = format!("{:04}-{:02}", d.y, d.m);
    expect("parse_date", &s, p_date(&s), Some(MDate { d: 1, ..d }))?;
    let s = format!("{:04}", d.y);
    expect(
        "parse_date",
        &s,
        p_date(&s),
        Some(MDate { y: d.y, m: 1, d: 1 }),
    )?;
    // what does not exist
    for m in 1..=12u8 {
        for dd in [0, gen::days_in_month(y, m) + 1, 32] {
            let s = format!("{y:04}{m:02}{dd:02}");
            expect("parse_date", &s, p_date(&s), None)?;
            cx.add("invalid dates rejected", 1);
        }
    }
    for m in [0, 13, 99] {
        let s = format!("{y:04}{m:02}01");
        expect("parse_date", &s, p_date(&s), None)?;
        let s = format!("{y:04}-{m:02}");
        expect("parse_date", &s, p_date(&s), None)?;
    }
    // and all of them through a document, as lists
    let lines: Vec<String> = picked
        .chunks(40)
        .map(|c| {
            format!(
                "X-D;VALUE=date:{}",
                c.iter().map(wire::w_date).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let want: Vec<MVal> = picked.chunks(40).map(|c| MVal::Date(c.to_vec())).collect();
    through(cx, &lines, &want)
}

/// Parse lines, compare the values (after FN), write and compare again.
pub fn through(cx: &mut Cx, lines: &[String], want: &[MVal]) -> R {
    let text = doc(lines);
    cx.input = text.clone();
    let mut now = text.clone();
    for round in 0..2 {
        let cards = match vcard4::parse(&now) {
            Ok(c) => c,
            Err(e) => {
                return fail(
                    if round == 0 {
                        "a valid value is rejected"
                    } else {
                        "a written value is rejected"
                    },
                    &text,
                    format!("{now:?}: {e}"),
                )
            }
        };
        let got: Vec<MVal> = dump_all(&cards)
            .concat()
            .into_iter()
            .filter(|p| p.name != "FN")
            .map(|p| p.val)
            .collect();
        if got != want {
            let k = (0..want.len().max(got.len()))
                .find(|k| got.get(*k) != want.get(*k))
                .unwrap_or(0);
            return fail(
                if round == 0 {
                    "a value is read wrongly"
                } else {
                    "a value changes when written"
                },
                &text,
                format!(
                    "text {now:?}\n  expected {:?}\n  got      {:?}",
                    want.get(k),
                    got.get(k)
                ),
            );
        }
        now = cards[0].to_string();
    }
    cx.seen(&text);
    cx.add("values through documents", want.len() as u64);
    Ok(())
}

/// --MMDD, --MM, ---DD: all of them.
fn truncated_dates(cx: &mut Cx) -> R {
    let n = cx.idx as i32;
    let (m, d) = ((n / 100) as u8, (n % 100) as u8);
    let s = format!("--{m:02}{d:02}");
    let want = if (1..=12).contains(&m) && d >= 1 && d <= gen::days_in_month(0, m) {
        Some(MDate { y: 0, m, d })
    } else {
        None
    };
    cx.input = s.clone();
    expect("parse_date", &s, p_date(&s), want)?;
    if let Some(w) = want {
        expect("DateAndOrTime", &s, p_dt(&s), Some(MDt::D(w)))?;
        for p in [
            "BDAY",
            "ANNIVERSARY",
            "X-A;VALUE=date-and-or-time",
            "BDAY;VALUE=date-and-or-time",
        ] {
            through(cx, &[format!("{p}:{s}")], &[MVal::Dt(vec![MDt::D(w)])])?;
        }
        through(cx, &[format!("X-A;VALUE=date:{s}")], &[MVal::Date(vec![w])])?;
        cx.count("--MMDD");
    } else {
        let t = doc(&[format!("X-A;VALUE=date:{s}")]);
        expect(
            "a date that does not exist",
            &t,
            vcard4::parse(&t).map(|c| dump_all(&c)),
            None,
        )?;
        cx.count("--MMDD rejected");
    }
    if m == 0 {
        let s = format!("---{d:02}");
        let want = ((1..=31).contains(&d)).then_some(MDate { y: 0, m: 1, d });
        expect("parse_date", &s, p_date(&s), want)?;
        if let Some(w) = want {
            through(cx, &[format!("BDAY:{s}")], &[MVal::Dt(vec![MDt::D(w)])])?;
            through(cx, &[format!("X-A;VALUE=date:{s}")], &[MVal::Date(vec![w])])?;
        }
        let m = d;
        let s = format!("--{m:02}");
        let want = ((1..=12).contains(&m)).then_some(MDate { y: 0, m, d: 1 });
        expect("parse_date", &s, p_date(&s), want)?;
        if let Some(w) = want {
            through(
                cx,
                &[format!("ANNIVERSARY:{s}")],
                &[MVal::Dt(vec![MDt::D(w)])],
            )?;
            through(cx, &[format!("X-A;VALUE=date:{s}")], &[MVal::Date(vec![w])])?;
        }
    }
    cx.seen(&s);
    Ok(())
}

/// Every second of the day, one minute per case, with several zones.
fn minutes(cx: &mut Cx) -> R {
    let (hh, mm) = ((cx.idx / 60) as u8, (cx.idx % 60) as u8);
    let mut lines = Vec::new();
    let mut want = Vec::new();
    for s in 0..60u8 {
        let z = gen::offset(&mut cx.rng);
        let base = MTime {
            h: hh,
            m: mm,
            s,
            ns: 0,
            off: 0,
        };
        let hms = format!("{hh:02}{mm:02}{s:02}");
        for (t, w) in [
            (hms.clone(), base),
            (format!("{hms}Z"), base),
            (format!("{hms}{}", wire::w_off(z)), MTime { off: z, ..base }),
            (
                format!("{hms}{}", &wire::w_off(z)[..3]),
                MTime {
                    off: if z < 0 {
                        -(-z / 3600 * 3600)
                    } else {
                        z / 3600 * 3600
                    },
                    ..base
                },
            ),
        ] {
            cx.input = t.clone();
            expect("parse_time", &t, p_time(&t), Some(w))?;
            expect(
                "DateAndOrTime",
                &format!("T{t}"),
                p_dt(&format!("T{t}")),
                Some(MDt::T(w)),
            )?;
            cx.add("times parsed", 1);
            if lines.len() < 40 || cx.thorough {
                lines.push(format!("X-A;VALUE=time:{t},{t}"));
                want.push(MVal::Time(vec![w, w]));
                lines.push(format!("X-A;VALUE=date-and-or-time:T{t}"));
                want.push(MVal::Dt(vec![MDt::T(w)]));
            }
        }
    }
    through(cx, &lines, &want)?;
    // every minute as HHMM, -MMSS; every hour as HH, --SS
    let w = MTime {
        h: hh,
        m: mm,
        s: 0,
        ns: 0,
        off: 0,
    };
    for (t, w) in [
        (format!("{hh:02}{mm:02}"), w),
        (format!("{hh:02}{mm:02}Z"), w),
        (format!("{hh:02}{mm:02}+0130"), MTime { off: 5400, ..w }),
        (format!("{hh:02}"), MTime { m: 0, ..w }),
        (format!("{hh:02}Z"), MTime { m: 0, ..w }),
        (
            format!("{hh:02}-0800"),
            MTime {
                m: 0,
                off: -28800,
                ..w
            },
        ),
        // minutes and seconds from the two counters
        (
            format!("-{mm:02}{hh:02}"),
            MTime {
                h: 0,
                m: mm,
                s: hh,
                ns: 0,
                off: 0,
            },
        ),
        (
            format!("-{mm:02}"),
            MTime {
                h: 0,
                m: mm,
                s: 0,
                ns: 0,
                off: 0,
            },
        ),
        (
            format!("--{mm:02}"),
            MTime {
                h: 0,
                m: 0,
                s: mm,
                ns: 0,
                off: 0,
            },
        ),
        (
            format!("-{mm:02}{hh:02}Z"),
            MTime {
                h: 0,
                m: mm,
                s: hh,
                ns: 0,
                off: 0,
            },
        ),
        (
            format!("-{mm:02}{hh:02}+01"),
            MTime {
                h: 0,
                m: mm,
                s: hh,
                ns: 0,
                off: 3600,
            },
        ),
        (
            format!("--{mm:02}-0100"),
            MTime {
                h: 0,
                m: 0,
                s: mm,
                ns: 0,
                off: -3600,
            },
        ),
    ] {
        cx.input = t.clone();
        expect("parse_time", &t, p_time(&t), Some(w))?;
        expect(
            "DateAndOrTime",
            &format!("T{t}"),
            p_dt(&format!("T{t}")),
            Some(MDt::T(w)),
        )?;
        through(
            cx,
            &[format!("BDAY:T{t}"), format!("X-A;VALUE=time:{t}")],
            &[MVal::Dt(vec![MDt::T(w)]), MVal::Time(vec![w])],
        )?;
        cx.count("reduced times");
    }
    Ok(())
}

/// A time that does not exist is rejected everywhere.
fn no_time(cx: &mut Cx, t: &str) -> R {
    cx.input = t.to_string();
    expect("parse_time", t, p_time(t), None)?;
    let d = gen::date(&mut cx.rng);
    let s = format!("{}T{t}", wire::w_date(&d));
    expect("parse_date_time", &s, p_date_time(&s), None)?;
    expect("parse_timestamp", &s, p_timestamp(&s), None)?;
    expect(
        "DateAndOrTime",
        &format!("T{t}"),
        p_dt(&format!("T{t}")),
        None,
    )?;
    for l in [
        format!("X-A;VALUE=time:{t}"),
        format!("X-A;VALUE=date-time:{s}"),
        format!("X-A;VALUE=timestamp:{s}"),
        format!("REV:{s}"),
        format!("BDAY:T{t}"),
        format!("BDAY:{s}"),
    ] {
        let text = doc(&[l]);
        cx.input = text.clone();
        expect(
            "a time that does not exist",
            &text,
            vcard4::parse(&text).map(|c| dump_all(&c)),
            None,
        )?;
        cx.seen(&text);
    }
    cx.count("invalid times rejected");
    Ok(())
}

/// The first values out of range.
const CORNERS: [&str; 22] = [
    "24", "2400", "240000", "24:00", "2401", "240001", "25", "2500", "250000", "2360",
    "236000", "0060", "006000", "235961", "000061", "99", "9999", "999999", "-60",
    "-6000", "--61", "-0061",
];
fn corners(cx: &mut Cx) -> R {
    let i = cx.idx as usize;
    let t = CORNERS[i / 4];
    let tail = ["", "Z", "+0000", "-08"][i % 4];
    no_time(cx, &format!("{t}{tail}"))
}

/// Times that do not exist.
fn invalid_times(cx: &mut Cx) -> R {
    let n = cx.idx;
    let r = &mut cx.rng;
    let (a, b, c) = match n % 3 {
        0 => (
            24 + (n / 3) % 76,
            r.range(0, 59) as u64,
            r.range(0, 59) as u64,
        ),
        1 => (
            r.range(0, 23) as u64,
            60 + (n / 3) % 40,
            r.range(0, 59) as u64,
        ),
        _ => (
            r.range(0, 23) as u64,
            r.range(0, 59) as u64,
            61 + (n / 3) % 39,
        ),
    };
    let tail = *r.of(&["", "Z", "+0100", "-08"]);
    let t = format!("{a:02}{b:02}{c:02}{tail}");
    no_time(cx, &t)
}

/// A value of another date or time type: no part of it may get lost.
fn mismatched(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (d, t) = (gen::date(r), gen::time(r));
    let (d, t) = (wire::w_date(&d), spell_time(r, &t));
    let at = format!("{d}T{t}");
    let (value, types): (String, &[&str]) = match r.below(4) {
        0 => (at, &["date", "time"]),
        1 => (d, &["time", "date-time"]),
        2 => (format!("T{t}"), &["date", "date-time"]),
        _ => (format!("{at}T{t}"), &["date", "time", "date-time", "timestamp"]),
    };
    let good = {
        let (d, t) = (gen::date(r), gen::time(r));
        move |ty: &str| match ty {
            "date" => wire::w_date(&d),
            "time" => format!("{:02}{:02}{:02}", t.h, t.m, t.s),
            _ => format!("{}T{:02}{:02}{:02}", wire::w_date(&d), t.h, t.m, t.s),
        }
    };
    let first = r.bool();
    for ty in types {
        cx.input = value.clone();
        match *ty {
            "date" => expect("parse_date", &value, p_date(&value), None)?,
            "time" => expect("parse_time", &value, p_time(&value), None)?,
            "timestamp" => expect("parse_timestamp", &value, p_timestamp(&value), None)?,
            _ => expect("parse_date_time", &value, p_date_time(&value), None)?,
        }
        let list = if first {
            format!("{},{value}", good(ty))
        } else {
            format!("{value},{}", good(ty))
        };
        for v in [&value, &list] {
            let text = doc(&[format!("X-A;VALUE={ty}:{v}")]);
            cx.input = text.clone();
            expect(
                "a value of another type",
                &text,
                vcard4::parse(&text).map(|c| dump_all(&c)),
                None,
            )?;
            cx.seen(&text);
        }
    }
    cx.count("values of another type rejected");
    Ok(())
}

fn spell_time(r: &mut Rng, t: &MTime) -> String {
    let mut s = format!("{:02}{:02}{:02}", t.h, t.m, t.s);
    if t.s == 0 && r.bool() {
        s.truncate(4);
        if t.m == 0 && r.bool() {
            s.truncate(2);
        }
    }
    s + &spell_zone(r, t.off)
}

fn spell_zone(r: &mut Rng, off: i32) -> String {
    if off == 0 {
        r.of(&["", "Z", "+0000", "+00", "-0000", "-00"]).to_string()
    } else if off % 3600 == 0 && r.bool() {
        wire::w_off(off)[..3].to_string()
    } else {
        wire::w_off(off)
    }
}

fn spell_date(r: &mut Rng, d: &MDate) -> String {
    let mut o = vec![wire::w_date(d), format!("{:04}-{:02}-{:02}", d.y, d.m, d.d)];
    if d.d == 1 {
        o.push(format!("{:04}-{:02}", d.y, d.m));
        if d.m == 1 {
            o.push(format!("{:04}", d.y));
        }
    }
    if d.y == 0 {
        o.push(format!("--{:02}{:02}", d.m, d.d));
        if d.d == 1 {
            o.push(format!("--{:02}", d.m));
        }
        if d.m == 1 {
            o.push(format!("---{:02}", d.d));
        }
    }
    r.of(&o).clone()
}

fn some_date(r: &mut Rng) -> MDate {
    let mut d = gen::date(r);
    match r.below(6) {
        0 => d.d = 1,
        1 => (d.m, d.d) = (1, 1),
        2 => {
            d.y = 0;
            d.d = d.d.min(28);
        }
        _ => {}
    }
    d
}

/// Dates and times together, in every spelling, in every place.
fn together(cx: &mut Cx) -> R {
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let r = &mut cx.rng;
    for _ in 0..6 {
        let d = some_date(r);
        let t = gen::time(r);
        let full = format!("{:02}{:02}{:02}", t.h, t.m, t.s);
        let z = spell_zone(r, t.off);
        // timestamps are complete
        let ts = format!("{}T{full}{z}", wire::w_date(&d));
        let dt = format!("{}T{}", spell_date(r, &d), spell_time(r, &t));
        expect("parse_timestamp", &ts, p_timestamp(&ts), Some((d, t)))?;
        expect("parse_date_time", &dt, p_date_time(&dt), Some((d, t)))?;
        expect("parse_date_time", &ts, p_date_time(&ts), Some((d, t)))?;
        expect("DateAndOrTime", &dt, p_dt(&dt), Some(MDt::DT(d, t)))?;
        for (what, got) in [
            ("parse_timestamp instant", h::parse_timestamp(&ts)),
            ("parse_date_time instant", h::parse_date_time(&dt)),
        ] {
            let got = got.map(|x| (x.as_ref().unix_timestamp(), x.as_ref().nanosecond()));
            expect(what, &format!("{ts} {dt}"), got, Some((instant(&d, &t), 0)))?;
        }
        lines.push(format!("X-A;VALUE=timestamp:{ts}"));
        want.push(MVal::Timestamp(vec![(d, t)]));
        lines.push(format!("X-A;VALUE=date-time:{dt}"));
        want.push(MVal::DateTime(vec![(d, t)]));
        lines.push(format!("X-A;VALUE=date-and-or-time:{dt}"));
        want.push(MVal::Dt(vec![MDt::DT(d, t)]));
    }
    // lists of mixed kinds
    let mut parts = Vec::new();
    let mut vals = Vec::new();
    for _ in 0..r.range(1, 6) {
        let d = some_date(r);
        let t = gen::time(r);
        match r.below(3) {
            0 => {
                parts.push(spell_date(r, &d));
                vals.push(MDt::D(d));
            }
            1 => {
                parts.push(format!("{}T{}", spell_date(r, &d), spell_time(r, &t)));
                vals.push(MDt::DT(d, t));
            }
            _ => {
                parts.push(format!("T{}", spell_time(r, &t)));
                vals.push(MDt::T(t));
            }
        }
    }
    lines.push(format!("X-A;VALUE=date-and-or-time:{}", parts.join(",")));
    want.push(MVal::Dt(vals.clone()));
    let helper = h::parse_date_and_or_time_list(&parts.join(","))
        .map(|l| l.iter().map(d_dt).collect::<Vec<_>>());
    expect(
        "parse_date_and_or_time_list",
        &parts.join(","),
        helper,
        Some(vals.clone()),
    )?;
    through(cx, &lines, &want)?;

    // the single properties
    let r = &mut cx.rng;
    let (d, t) = (some_date(r), gen::time(r));
    let ts = format!(
        "{}T{:02}{:02}{:02}{}",
        wire::w_date(&d),
        t.h,
        t.m,
        t.s,
        spell_zone(r, t.off)
    );
    let one = r.below(vals.len());
    let mut lines = vec![
        format!("BDAY:{}", parts[one]),
        format!("ANNIVERSARY;VALUE=date-and-or-time:{}", parts.join(",")),
        format!("REV:{ts}"),
    ];
    if r.bool() {
        lines[2] = format!("REV;VALUE=timestamp:{ts}");
    }
    let want = vec![MVal::Dt(vec![vals[one]]), MVal::Dt(vals), MVal::Rev(d, t)];
    through(cx, &lines, &want)?;
    cx.count("mixed lists");
    Ok(())
}

/// Values made in memory, never seen by the parser: what is written must
/// mean the same to the parser and to the reference reader.
fn written(cx: &mut Cx) -> R {
    use vcard4::property::*;
    let r = &mut cx.rng;
    let d = gen::date(r);
    let t = gen::time(r);
    let dts: Vec<MDt> = gen::list(r, 4, gen::dt);
    let dates: Vec<MDate> = gen::list(r, 4, gen::date);
    let times: Vec<MTime> = gen::list(r, 4, gen::time);
    let c: MCard = vec![
        MProp {
            name: "FN".into(),
            group: None,
            params: None,
            val: MVal::Text("x".into()),
        },
        MProp {
            name: "BDAY".into(),
            group: None,
            params: None,
            val: MVal::Dt(dts.clone()),
        },
        MProp {
            name: "ANNIVERSARY".into(),
            group: None,
            params: None,
            val: MVal::Dt(vec![dts[0]]),
        },
        MProp {
            name: "REV".into(),
            group: None,
            params: None,
            val: MVal::Rev(d, t),
        },
        ext("date", MVal::Date(dates.clone())),
        ext("time", MVal::Time(times.clone())),
        ext(
            "date-time",
            MVal::DateTime(vec![(d, t), (dates[0], times[0])]),
        ),
        ext(
            "timestamp",
            MVal::Timestamp(vec![(dates[0], times[0]), (d, t)]),
        ),
        ext("date-and-or-time", MVal::Dt(dts.clone())),
    ];
    let card = match build(&c) {
        Ok(c) => c,
        Err(e) => return fail("model", "", e),
    };
    let text = card.to_string();
    cx.input = text.clone();
    let back = vcard4::parse(&text);
    match back {
        Ok(b) => {
            if let Some(x) = diff(&[sorted(c.clone())], &dump_all(&b)) {
                return fail("a date or time changes when written", &text, x);
            }
        }
        Err(e) => return fail("a written date or time is rejected", &text, e.to_string()),
    }
    match crate::reader::read(&text) {
        Ok(b) => {
            if let Some(x) = diff(&[sorted(c)], &sorted_all(&b)) {
                return fail("written dates mean something else", &text, x);
            }
        }
        Err(e) => return fail("written dates are not in RFC 6350 form", &text, e),
    }
    // the Display and FromStr of the types themselves
    for x in &dts {
        let v = b_dt(x);
        let s = v.to_string();
        expect("DateAndOrTime Display", &s, p_dt(&s), Some(*x))?;
    }
    for x in &dates {
        let s = vcard4::Date::from(b_date(x)).to_string();
        expect("Date Display", &s, p_date(&s), Some(*x))?;
        let back = s.parse::<vcard4::Date>().map(|x| d_date(&x.into()));
        expect("Date FromStr", &s, back, Some(*x))?;
    }
    let s = b_datetime(&d, &t).to_string();
    let back = s.parse::<vcard4::DateTime>().map(|x| d_datetime(&x));
    expect("DateTime Display", &s, back, Some((d, t)))?;
    let s = AnyProperty::Time(times.iter().map(b_time).collect()).to_string();
    let back =
        h::parse_time_list(&s).map(|l| l.iter().map(|(t, o)| d_time(t, o)).collect::<Vec<_>>());
    expect("time list Display", &s, back, Some(times))?;
    let s = AnyProperty::Date(dates.iter().map(|d| b_date(d).into()).collect()).to_string();
    let back = h::parse_date_list(&s).map(|l| l.iter().map(d_date).collect::<Vec<_>>());
    expect("date list Display", &s, back, Some(dates))?;
    cx.seen(&text);
    cx.count("values written");
    Ok(())
}

pub fn ext(ty: &'static str, val: MVal) -> MProp {
    MProp {
        name: "X-A".into(),
        group: None,
        params: Some(MParams {
            value: Some(ty),
            ..Default::default()
        }),
        val,
    }
}

/// Junk near dates: never accepted as some other date.  Every accepted
/// text of digits only must be one of the known forms.
fn digits(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1, 10) as usize;
    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    if r.bool() {
        // plausible
        let d = gen::date(r);
        s = wire::w_date(&d);
        match r.below(4) {
            0 => {
                let i = r.below(s.len());
                s.remove(i);
            }
            1 => {
                let i = r.below(s.len() + 1);
                s.insert(i, (b'0' + r.below(10) as u8) as char);
            }
            _ => {
                let i = r.below(s.len());
                s.replace_range(i..i + 1, &r.below(10).to_string());
            }
        }
    }
    cx.input = s.clone();
    let num = |a: usize, b: usize| s[a..b].parse::<i32>().unwrap_or(-1);
    if s.len() == 8 {
        let (y, m, d) = (num(0, 4), num(4, 6) as u8, num(6, 8) as u8);
        let want = ((1..=12).contains(&m) && d >= 1 && d <= gen::days_in_month(y, m))
            .then_some(MDate { y, m, d });
        expect("parse_date", &s, p_date(&s), want)?;
        cx.count(if want.is_some() {
            "8 digits accepted"
        } else {
            "8 digits rejected"
        });
        cx.seen(&s);
    } else if s.len() == 4 {
        expect(
            "parse_date",
            &s,
            p_date(&s),
            Some(MDate {
                y: num(0, 4),
                m: 1,
                d: 1,
            }),
        )?;
        let (hh, mm) = (num(0, 2), num(2, 4));
        let want = (hh < 24 && mm < 60).then_some(MTime {
            h: hh as u8,
            m: mm as u8,
            s: 0,
            ns: 0,
            off: 0,
        });
        expect("parse_time", &s, p_time(&s), want)?;
        cx.seen(&s);
    } else if s.len() == 6 {
        let (hh, mm, ss) = (num(0, 2), num(2, 4), num(4, 6));
        if ss != 60 {
            let want = (hh < 24 && mm < 60 && ss < 60).then_some(MTime {
                h: hh as u8,
                m: mm as u8,
                s: ss as u8,
                ns: 0,
                off: 0,
            });
            expect("parse_time", &s, p_time(&s), want)?;
        }
        cx.seen(&s);
    } else if s.len() == 9 || s.len() == 10 || s.len() == 1 || s.len() == 3 {
        expect("parse_date", &s, p_date(&s), None)?;
        cx.seen(&s);
    }
    Ok(())
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "dates, times, offsets and their spellings are enumerated or drawn at random; a case is non-trivial when a value delivered by a helper function or inside a card was compared with independent calendar arithmetic",
        fams: vec![
            exhaustive("years", years, 10_000),
            exhaustive("truncated dates", truncated_dates, 10_000),
            exhaustive("minutes", minutes, 24 * 60),
            exhaustive("corners", corners, 4 * CORNERS.len() as u64),
            fam("invalid times", invalid_times, 1_200, 20_000),
            fam("mismatched", mismatched, 3_000, 100_000),
            exhaustive("sizes", sizes::dates, sizes::DATES),
            fam("together", together, 3_000, 300_000),
            fam("written", written, 6_000, 400_000),
            fam("digits", digits, 60_000, 3_000_000),
            fam("reference", refer::dates, 20_000, 2_000_000),
        ],
        must: vec![
            "dates parsed", "--MMDD", "times parsed", "reduced times", "invalid times rejected",
            "values of another type rejected",
            "mixed lists", "values written", "8 digits accepted", "8 digits rejected",
        ],
    }
}

// ----------------------------------------------------------------------- C15

/// All +-HHMM in every place an offset occurs.
fn offsets(cx: &mut Cx) -> R {
    let minutes = (cx.idx / 2) as i32;
    let neg = cx.idx % 2 == 1;
    let secs = if neg { -minutes * 60 } else { minutes * 60 };
    let sign = if neg { '-' } else { '+' };
    let full = format!("{sign}{:02}{:02}", minutes / 60, minutes % 60);
    let mut spellings = vec![full.clone()];
    if minutes % 60 == 0 {
        spellings.push(format!("{sign}{:02}", minutes / 60));
    }
    if secs == 0 {
        spellings.push("Z".to_string());
    }
    for z in spellings {
        cx.input = z.clone();
        expect("parse_utc_offset", &z, p_off(&z), Some(secs))?;
        let prop = z
            .parse::<vcard4::property::UtcOffsetProperty>()
            .map(|p| p.value.whole_seconds());
        expect("UtcOffsetProperty", &z, prop, Some(secs))?;
        let r = &mut cx.rng;
        let d = gen::date(r);
        let mut t = gen::time(r);
        t.off = secs;
        let hms = format!("{:02}{:02}{:02}", t.h, t.m, t.s);
        let date = wire::w_date(&d);
        expect(
            "parse_time",
            &format!("{hms}{z}"),
            p_time(&format!("{hms}{z}")),
            Some(t),
        )?;
        expect(
            "parse_timestamp",
            &format!("{date}T{hms}{z}"),
            h::parse_timestamp(&format!("{date}T{hms}{z}"))
                .map(|x| (d_datetime(&x), x.as_ref().unix_timestamp())),
            Some(((d, t), instant(&d, &t))),
        )?;
        let lines = vec![
            format!("BDAY:T{hms}{z}"),
            format!("ANNIVERSARY:{date}T{hms}{z}"),
            format!("TZ;VALUE=utc-offset:{z}"),
            format!("REV:{date}T{hms}{z}"),
            format!("X-A;VALUE=utc-offset:{z}"),
            format!("X-A;VALUE=time:{hms}{z},{hms}{z}"),
            format!("X-A;VALUE=date-time:{date}T{hms}{z}"),
            format!("X-A;VALUE=timestamp:{date}T{hms}{z}"),
            format!("X-A;VALUE=date-and-or-time:T{hms}{z},{date}T{hms}{z}"),
        ];
        let want = vec![
            MVal::Dt(vec![MDt::T(t)]),
            MVal::Dt(vec![MDt::DT(d, t)]),
            MVal::Off(secs),
            MVal::Rev(d, t),
            MVal::Off(secs),
            MVal::Time(vec![t, t]),
            MVal::DateTime(vec![(d, t)]),
            MVal::Timestamp(vec![(d, t)]),
            MVal::Dt(vec![MDt::T(t), MDt::DT(d, t)]),
        ];
        through(cx, &lines, &want)?;
        // as a parameter
        let text = doc(&[format!("NOTE;TZ={z}:x"), format!("ADR;TZ={z}:;;;;;;")]);
        cx.input = text.clone();
        let mut now = text.clone();
        for _ in 0..2 {
            let cards = match vcard4::parse(&now) {
                Ok(c) => c,
                Err(e) => return fail("an offset parameter is rejected", &text, e.to_string()),
            };
            let got: Vec<Option<MTz>> = dump(&cards[0])
                .into_iter()
                .filter(|p| p.name != "FN")
                .map(|p| p.params.and_then(|p| p.tz))
                .collect();
            if got != [Some(MTz::Off(secs)), Some(MTz::Off(secs))] {
                return fail(
                    "an offset parameter changes",
                    &text,
                    format!("{now:?}: expected {secs}, got {got:?}"),
                );
            }
            now = cards[0].to_string();
        }
        cx.seen(&text);
        cx.count("offsets");
    }
    // written from memory
    let o = b_off(secs);
    let p = vcard4::property::UtcOffsetProperty {
        value: o,
        group: None,
        parameters: None,
    };
    let s = p.to_string();
    expect("UtcOffsetProperty Display", &s, p_off(&s), Some(secs))?;
    if s != if secs == 0 {
        "+0000".to_string()
    } else {
        full.clone()
    } {
        return fail("an offset is not written as +-HHMM", &full, s);
    }
    let s = vcard4::property::AnyProperty::UtcOffset(o).to_string();
    expect("AnyProperty Display", &s, p_off(&s), Some(secs))?;
    Ok(())
}

/// +-HHMM out of range, and other texts that are not offsets.
fn not_offsets(cx: &mut Cx) -> R {
    let n = cx.idx / 2;
    let (hh, mm) = (n / 100, n % 100);
    let sign = if cx.idx % 2 == 1 { '-' } else { '+' };
    if hh < 24 && mm < 60 {
        return Ok(());
    }
    let z = format!("{sign}{hh:02}{mm:02}");
    reject(cx, &z)?;
    let t = gen::time(&mut cx.rng);
    let hms = format!("{:02}{:02}{:02}", t.h, t.m, t.s);
    no_time(cx, &format!("{hms}{z}"))?;
    if mm == 0 {
        let z = format!("{sign}{hh:02}");
        reject(cx, &z)?;
        no_time(cx, &format!("{hms}{z}"))?;
    }
    Ok(())
}

fn reject(cx: &mut Cx, z: &str) -> R {
    cx.input = z.to_string();
    expect("parse_utc_offset", z, p_off(z), None)?;
    for l in [
        format!("TZ;VALUE=utc-offset:{z}"),
        format!("X-A;VALUE=utc-offset:{z}"),
    ] {
        let text = doc(&[l]);
        cx.input = text.clone();
        expect(
            "an offset out of range",
            &text,
            vcard4::parse(&text).map(|c| dump_all(&c)),
            None,
        )?;
        cx.seen(&text);
    }
    cx.count("rejected offsets");
    Ok(())
}

/// Texts without a sign or with something more.
fn malformed(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let o = gen::offset(r);
    let w = wire::w_off(o);
    let z = match r.below(9) {
        0 => w[1..].to_string(),
        1 => w[1..3].to_string(),
        2 => format!("{w}{}", r.below(10)),
        3 => format!(" {w}"),
        4 => format!("{w}Z"),
        5 => w[..2].to_string(),
        6 => format!("{}{}", &w[..1], w),
        7 => w[..1].to_string(),
        _ => format!("{w},{w}"),
    };
    reject(cx, &z)?;
    // as a parameter it is text
    let text = doc(&[format!("NOTE;TZ={z}:x")]);
    if z.starts_with(' ') || z.contains(',') {
        return Ok(());
    }
    cx.input = text.clone();
    let got =
        vcard4::parse(&text).map(|c| dump(&c[0]).pop().and_then(|p| p.params).and_then(|p| p.tz));
    expect(
        "a TZ parameter that is no offset",
        &text,
        got,
        Some(Some(MTz::Text(z))),
    )
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "all 2880 signed offsets are enumerated in every place an offset occurs, and all other four-digit texts; a case is non-trivial when the offset delivered (and written and re-read) was compared with its number of seconds",
        fams: vec![
            exhaustive("offsets", offsets, 2 * 24 * 60),
            exhaustive("not offsets", not_offsets, 2 * 10_000),
            fam("malformed", malformed, 3_000, 100_000),
            fam("reference", refer::offsets, 20_000, 2_000_000),
        ],
        must: vec!["offsets", "rejected offsets"],
    }
}
