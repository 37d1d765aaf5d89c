//! C16 (typed extension values), C17 (text or URI), C20 (photos),
//! C23 (tokens).

use super::dates::{doc, expect, through};
use super::text::{nth_pieces, p, pv, upto};
use super::*;
use crate::rng::Rng;
use crate::{gen, mutate, uri, wire};
use vcard4::helper as h;
use vcard4::parameter::*;
use vcard4::property::*;

// ---------------------------------------------------------------- C16

/// Spell an X- line with a VALUE parameter: the token in any case, other
/// parameters around it, a group.
fn xline(r: &mut Rng, ty: &str, value: &str) -> String {
    let mut params = vec![format!(
        "{}={}",
        wire::recase(r, "VALUE"),
        wire::recase(r, ty)
    )];
    for _ in 0..r.below(3) {
        let x = match r.below(6) {
            0 => format!("PREF={}", r.range(1, 100)),
            1 => "ALTID=1".to_string(),
            2 => "LANGUAGE=de".to_string(),
            3 => "PID=1.2,3".to_string(),
            4 => "SORT-AS=\"integer,float\"".to_string(),
            _ => format!("X-{}=\"VALUE=text\"", gen::alnum(r, 1, 4)),
        };
        let k = x.split('=').next().unwrap_or("").to_string();
        if params.iter().any(|p| p.starts_with(&k)) {
            continue;
        }
        let i = r.below(params.len() + 1);
        params.insert(i, x);
    }
    let group = if r.chance(1, 5) {
        format!("{}.", gen::group(r))
    } else {
        String::new()
    };
    format!("{group}{};{}:{value}", gen::xname(r), params.join(";"))
}

/// A decimal spelling of an integer.
fn spell_int(r: &mut Rng, n: i64) -> String {
    let mut s = n.unsigned_abs().to_string();
    if r.chance(1, 6) {
        s = format!("{}{s}", "0".repeat(r.below(4)));
    }
    if n < 0 {
        format!("-{s}")
    } else if r.chance(1, 6) {
        format!("+{s}")
    } else {
        s
    }
}

fn integers(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let mut n = 0;
    for _ in 0..r.range(1, 4) {
        let l: Vec<i64> = gen::list(r, 6, |r| match r.below(4) {
            // around powers of two and of ten
            0 => (1i64 << r.below(63)).wrapping_add(r.range(-2, 2)),
            1 => 10i64.pow(r.below(19) as u32) + r.range(-1, 1),
            2 => i64::MIN + r.range(0, 3),
            _ => gen::int(r),
        });
        let plain = l
            .iter()
            .map(|n| n.to_string())
            .collect::<Vec<_>>()
            .join(",");
        let spelled = l
            .iter()
            .map(|n| spell_int(r, *n))
            .collect::<Vec<_>>()
            .join(",");
        expect(
            "parse_integer_list",
            &spelled,
            h::parse_integer_list(&spelled),
            Some(l.clone()),
        )?;
        let shown = AnyProperty::Integer(l.clone()).to_string();
        expect::<_, ()>(
            "integer list Display",
            &plain,
            Ok(shown),
            Some(plain.clone()),
        )?;
        n += l.len();
        lines.push(xline(r, "integer", &spelled));
        want.push(MVal::Int(l));
    }
    cx.add("integers", n as u64);
    through(cx, &lines, &want)
}

/// The exact decimal expansion of a finite double.
fn exact_decimal(f: f64) -> String {
    // mantissa * 2^e with integer arithmetic on decimal digits
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1 << 52) - 1);
    let (mut m, e) = if e == 0 {
        (m, -1074)
    } else {
        (m | 1 << 52, e - 1075)
    };
    let mut digits: Vec<u8> = Vec::new(); // least significant first
    while m > 0 {
        digits.push((m % 10) as u8);
        m /= 10;
    }
    let mul = |d: &mut Vec<u8>, k: u16| {
        let mut c = 0u16;
        for x in d.iter_mut() {
            let v = *x as u16 * k + c;
            *x = (v % 10) as u8;
            c = v / 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    };
    // m * 2^-k = m * 5^k / 10^k
    let mut point = 0;
    if e >= 0 {
        for _ in 0..e {
            mul(&mut digits, 2);
        }
    } else {
        for _ in 0..-e {
            mul(&mut digits, 5);
        }
        point = (-e) as usize;
    }
    while digits.len() <= point {
        digits.push(0);
    }
    let mut s = String::new();
    if f.is_sign_negative() {
        s.push('-');
    }
    for i in (0..digits.len()).rev() {
        s.push((b'0' + digits[i]) as char);
        if i == point && point > 0 {
            s.push('.');
        }
    }
    s
}

fn floats(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let mut n = 0;
    for _ in 0..r.range(1, 3) {
        let l: Vec<f64> = gen::list(r, 4, gen::float);
        let spelled: Vec<String> = l
            .iter()
            .map(|f| match r.below(5) {
                // every digit: only one double is that number
                0 => exact_decimal(*f),
                1 if f.fract() == 0.0 && f.abs() < 1e15 => format!("{f:.1}"),
                2 if *f >= 0.0 && f.is_sign_positive() => format!("+{f}"),
                3 => format!("{f}").replacen('.', ".", 1),
                _ => f.to_string(),
            })
            .collect();
        let spelled = spelled.join(",");
        let bits: Vec<u64> = l.iter().map(|f| f.to_bits()).collect();
        let same = |l: Vec<f64>| l.iter().map(|f| f.to_bits()).collect::<Vec<_>>();
        expect(
            "parse_float_list",
            &spelled,
            h::parse_float_list(&spelled).map(same),
            Some(bits.clone()),
        )?;
        // what is shown is plain decimal and is the same number
        let shown = AnyProperty::Float(l).to_string();
        expect(
            "float list Display",
            &shown,
            h::parse_float_list(&shown).map(same),
            Some(bits.clone()),
        )?;
        for x in shown.split(',') {
            let d = x.strip_prefix(['-', '+']).unwrap_or(x);
            let (a, b) = d.split_once('.').unwrap_or((d, "0"));
            let ok = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
            if !ok(a) || !ok(b) {
                return fail("a float is not written in RFC 6350 form", shown.clone(), x);
            }
        }
        n += bits.len();
        lines.push(xline(r, "float", &spelled));
        want.push(MVal::Float(bits));
    }
    cx.add("floats", n as u64);
    through(cx, &lines, &want)
}

/// Every type in one document, several times.
fn all_types(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut lines = Vec::new();
    let mut want = Vec::new();
    let mut tys: Vec<&'static str> = VALUES.to_vec();
    r.shuffle(&mut tys);
    tys.truncate(r.range(1, 12) as usize);
    let st = if r.bool() { wire::FULL } else { wire::PLAIN };
    for ty in &tys {
        let v = gen::ext_value(r, Some(ty));
        let s = wire::value(r, &st, &pv("X-A", ty, v.clone()));
        lines.push(xline(r, ty, &s));
        want.push(v);
    }
    for ty in &tys {
        cx.count(ty);
    }
    through(cx, &lines, &want)
}

/// Without VALUE the value is text, whatever it looks like.
fn untyped(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let ty = *r.of(&VALUES);
    let v = gen::ext_value(r, Some(ty));
    let s = wire::value(r, &wire::PLAIN, &pv("X-A", ty, v.clone()));
    let name = gen::xname(r);
    let want = match &v {
        MVal::Text(t) => t.clone(),
        MVal::Lang(t) => t.clone(),
        _ => s.clone(),
    };
    let extra = *r.of(&[
        "",
        ";PREF=1",
        ";X-VALUE=\"integer\"",
        ";ALTID=date",
        ";MEDIATYPE=text/plain",
    ]);
    let typed = [xline(r, "text", &s), format!("{name}{extra}:{s}")];
    cx.count("untyped");
    through(cx, &typed, &[MVal::Text(want.clone()), MVal::Text(want)])
}

/// Values that are not of the declared type.
const BAD: [(&str, &[&str]); 10] = [
    (
        "integer",
        &[
            "",
            "1.5",
            "1.0",
            "abc",
            "1,",
            ",1",
            "1,,2",
            "1 ",
            " 1",
            "1, 2",
            "9223372036854775808",
            "-9223372036854775809",
            "99999999999999999999",
            "0x10",
            "--1",
            "+-1",
            "1_000",
            "1;2",
            "-",
            "+",
            "1e3",
            "1-",
            "\u{661}",
            "ten",
            "true",
            "12a",
            "1,b,2",
        ],
    ),
    (
        "float",
        &[
            "",
            "abc",
            "1.2.3",
            "1,",
            ",1",
            "1,,2",
            "1 ",
            " 1",
            "1, 2",
            "--1",
            "+-1",
            ".",
            "-",
            "1;2",
            "1_0",
            "0x1p3",
            "1.5f",
            "true",
            "1.0,x",
            "\u{661}.5",
            "1..2",
        ],
    ),
    (
        "boolean",
        &[
            "",
            "yes",
            "no",
            "1",
            "0",
            "t",
            "f",
            "true ",
            " true",
            "true,false",
            "truefalse",
            "tru",
            "falsee",
            "on",
            "TRUEE",
        ],
    ),
    (
        "date",
        &[
            "",
            "abc",
            "20201301",
            "20200230",
            "20210229",
            "2020-13-01",
            "20200101T",
            "20200101T101010Z",
            "20200101,",
            ",20200101",
            "20200101,,20200102",
            "20200101;20200102",
            "202",
            "1-1-2020",
            "2020/01/01",
            "Jan 1 2020",
            "20200132",
            "---32",
            "--1301",
            " 20200101",
            "20200101,20200230,20200102",
        ],
    ),
    (
        "time",
        &[
            "",
            "abc",
            "250000",
            "106000",
            "101060",
            "10:10:",
            "101010X",
            "101010,",
            ",101010",
            "101010,,101011",
            "101010+",
            "101010+9900",
            "20200101T101010",
            "-60",
            "ten",
            " 101010",
            "101010,256000",
        ],
    ),
    (
        "date-time",
        &[
            "",
            "20200101",
            "101010",
            "T101010",
            "20200101T",
            "20201301T101010",
            "20200101T250000",
            "20200101 101010",
            "20200101T101010,",
            "20200101T101010,20200102",
            "abcTdef",
            "20200230T101010Z",
            "20200101T101010+9900",
        ],
    ),
    (
        "timestamp",
        &[
            "",
            "20200101",
            "101010",
            "T101010",
            "20200101T",
            "20201301T101010",
            "20200101T250000Z",
            "20200101T101060Z",
            "20200101 101010",
            "20200101T101010Z,",
            "20200101T101010Z,20200102",
            "--0101T101010Z",
            "20200230T101010Z",
            "20200101T101010X",
            "20200101T101010+9900",
            "20200101T101010ZZ",
        ],
    ),
    (
        "date-and-or-time",
        &[
            "",
            "abc",
            "20201301T101010",
            "T",
            "20200101,",
            ",20200101",
            "20200101,,20200102",
            "T250000",
            "20200101T250000Z",
            "Monday",
            "20200101;20200102",
            "20200101 101010",
        ],
    ),
    (
        "utc-offset",
        &[
            "",
            "0100",
            "+1",
            "+24000",
            "+2400",
            "-2500",
            "+0160",
            "+01:00x",
            "UTC",
            "+0100,+0200",
            "+",
            "-",
            "+-0100",
            "++0100",
            "01",
            "+01 00",
            "Europe/Berlin",
            " +0100",
        ],
    ),
    (
        "uri",
        &[
            "",
            "abc",
            "example.com",
            "//example.com/a",
            "/a/b",
            "1a:b",
            ":a",
            "a b:c",
            "http://a b",
            "http://a/ b",
            "http://a/%zz",
            "http://a/%4",
            "http://[::1/",
            "http://a:x/",
            "http://h/\u{e9}",
            "http://a/<b>",
            "a_b:c",
            "http://a#b#c",
            "http://a@b@c",
            "http://a/\u{7f}x",
        ],
    ),
];

fn rejects_total() -> u64 {
    BAD.iter().map(|(_, l)| l.len() as u64).sum()
}

fn helper_rejects(ty: &str, s: &str) -> R {
    let ok = match ty {
        "integer" => h::parse_integer_list(s).is_ok(),
        "float" => h::parse_float_list(s).is_ok(),
        "boolean" => h::parse_boolean(s).is_ok(),
        "date" => h::parse_date_list(s).is_ok(),
        "time" => h::parse_time_list(s).is_ok(),
        "date-time" => h::parse_date_time_list(s).is_ok(),
        "timestamp" => h::parse_timestamp_list(s).is_ok(),
        "date-and-or-time" => h::parse_date_and_or_time_list(s).is_ok(),
        "utc-offset" => h::parse_utc_offset(s).is_ok() || s.parse::<UtcOffsetProperty>().is_ok(),
        "uri" => s.parse::<vcard4::Uri>().is_ok() || UriProperty::try_from(s).is_ok(),
        _ => false,
    };
    if ok {
        return fail(
            format!("{ty}: a helper accepts a value of another kind"),
            s,
            "",
        );
    }
    Ok(())
}

/// The line must be rejected strictly and dropped alone loosely.
fn refused(cx: &mut Cx, what: &str, line: &str) -> R {
    let before = gen::int(&mut cx.rng);
    let text = doc(&[
        format!("X-B;VALUE=integer:{before}"),
        line.to_string(),
        "NOTE:after".to_string(),
    ]);
    cx.seen(&text);
    if let Ok(c) = vcard4::parse(&text) {
        return fail(
            format!("{what}: accepted"),
            &text,
            format!("{:?}", dump_all(&c)),
        );
    }
    let want = vec![
        p("FN", MVal::Text("x".into())),
        p("NOTE", MVal::Text("after".into())),
        pv("X-B", "integer", MVal::Int(vec![before])),
    ];
    match vcard4::parse_loose(&text) {
        Ok(c) => match diff(&[want], &dump_all(&c)) {
            None => {
                cx.count("rejected");
                Ok(())
            }
            Some(d) => fail(
                format!("{what}: loose parsing does not drop exactly this property"),
                &text,
                d,
            ),
        },
        Err(e) => fail(format!("{what}: loose parsing fails"), &text, e.to_string()),
    }
}

fn bad_values(cx: &mut Cx) -> R {
    let mut i = cx.idx % rejects_total();
    for (ty, l) in BAD.iter() {
        if i < l.len() as u64 {
            let s = l[i as usize];
            cx.input = s.to_string();
            helper_rejects(ty, s)?;
            if s.contains('\u{7f}') {
                return Ok(());
            }
            let line = xline(&mut cx.rng, ty, &s.replace(';', "\\;"));
            refused(cx, &format!("{ty} {s:?}"), &line)?;
            // one bad item spoils the list
            if !["boolean", "utc-offset", "uri"].contains(ty) && !s.is_empty() {
                let good = wire::value(&mut cx.rng, &wire::PLAIN, &pv("X-A", ty, MVal::Bool(true)));
                let _ = good;
                let r = &mut cx.rng;
                let v = gen::ext_value(r, Some(ty));
                let g = wire::value(r, &wire::PLAIN, &pv("X-A", ty, v));
                let s = s.replace(';', "\\;");
                let l = if r.bool() {
                    format!("{g},{s}")
                } else {
                    format!("{s},{g}")
                };
                let line = xline(r, ty, &l);
                refused(cx, &format!("{ty} list {l:?}"), &line)?;
            }
            return Ok(());
        }
        i -= l.len() as u64;
    }
    Ok(())
}

/// A value of one type under the VALUE of another.
fn cross_types(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // pairs no value of which can be read as the other
    const NO: [(&str, &[&str]); 8] = [
        ("integer", &["boolean", "date-time", "timestamp", "uri"]),
        ("float", &["boolean", "date-time", "timestamp", "uri"]),
        (
            "boolean",
            &[
                "integer",
                "float",
                "date",
                "time",
                "date-time",
                "timestamp",
                "date-and-or-time",
                "utc-offset",
                "uri",
            ],
        ),
        ("date", &["boolean", "date-time", "timestamp", "uri"]),
        ("date-time", &["boolean", "integer", "float", "date", "uri"]),
        ("timestamp", &["boolean", "integer", "float", "date", "uri"]),
        ("utc-offset", &["boolean", "date", "uri", "timestamp"]),
        (
            "uri",
            &[
                "boolean",
                "integer",
                "float",
                "date",
                "time",
                "date-time",
                "timestamp",
                "utc-offset",
            ],
        ),
    ];
    let (declared, from) = *r.of(&NO);
    let ty: &'static str = r.pick(from);
    let v = gen::ext_value(r, Some(ty));
    let s = wire::value(r, &wire::PLAIN, &pv("X-A", ty, v));
    // "+01" style offsets are digits too: only full values are surely wrong
    helper_rejects(declared, &s)?;
    let line = xline(r, declared, &s);
    refused(cx, &format!("{ty} under VALUE={declared}"), &line)
}

/// All spellings of the boolean tokens; everything near them is rejected.
fn booleans(cx: &mut Cx) -> R {
    let tok = if cx.idx % 2 == 0 { "true" } else { "false" };
    let mask = cx.idx / 2;
    if mask >= 1 << tok.len() {
        // edits
        let r = &mut cx.rng;
        let mut s: Vec<char> = tok.chars().collect();
        let i = r.below(s.len());
        match r.below(3) {
            0 => {
                s.remove(i);
            }
            1 => s.insert(i, (b'a' + r.below(26) as u8) as char),
            _ => s[i] = (b'a' + r.below(26) as u8) as char,
        }
        let s: String = s.into_iter().collect();
        if s == tok {
            return Ok(());
        }
        helper_rejects("boolean", &s)?;
        let line = xline(r, "boolean", &s);
        return refused(cx, &format!("boolean {s:?}"), &line);
    }
    let s: String = tok
        .chars()
        .enumerate()
        .map(|(i, c)| {
            if mask >> i & 1 == 1 {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect();
    expect(
        "parse_boolean",
        &s,
        h::parse_boolean(&s),
        Some(tok == "true"),
    )?;
    let line = xline(&mut cx.rng, "boolean", &s);
    cx.count("boolean spellings");
    through(cx, &[line], &[MVal::Bool(tok == "true")])
}

/// Values made in memory under any name.
fn made(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut c = vec![p("FN", MVal::Text("x".into()))];
    for _ in 0..r.range(1, 6) {
        let n = gen::xname(r);
        c.push(gen::prop(r, &n, 10));
    }
    cx.input = format!("{c:?}");
    let s = super::text::cycle("typed extension values", &c, &c)?;
    cx.seen(&s);
    cx.add("made in memory", c.len() as u64 - 1);
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "An X- value with VALUE decodes to the matching variant with exactly the items written, is written back to the same, and values not of the declared type are rejected strictly and dropped loosely, in documents and in the helper functions.",
        fams: vec![
            fam("integers", integers, 6000, 400_000),
            exhaustive("sizes", sizes::typed, sizes::TYPED),
            fam("floats", floats, 6000, 400_000),
            exhaustive("booleans", booleans, 2 * (32 + 80)),
            fam("all types", all_types, 6000, 300_000),
            fam("untyped", untyped, 4000, 200_000),
            fam("made in memory", made, 4000, 200_000),
            fam("bad values", bad_values, 4 * rejects_total(), 300 * rejects_total()),
            fam("cross types", cross_types, 6000, 300_000),
            fam("reference", refer::typed, 20_000, 2_000_000),
        ],
        must: vec![
            "integers", "floats", "boolean spellings", "untyped", "made in memory",
            "rejected", "date", "time", "date-time", "timestamp",
            "date-and-or-time", "utc-offset", "uri", "language-tag", "text",
        ],
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq)]
enum Class {
    Text,
    Uri,
    Reject,
}

/// What the property may hold for this VALUE; `None`: not specified.
fn class(name: &str, value: Option<&str>, is_uri: bool) -> Option<Class> {
    let auto = if is_uri { Class::Uri } else { Class::Text };
    let must = if is_uri { Class::Uri } else { Class::Reject };
    Some(match (name, value) {
        ("TEL" | "RELATED" | "UID" | "KEY" | "PHOTO", Some("text")) => Class::Text,
        ("TEL" | "RELATED" | "UID" | "KEY", Some("uri")) => must,
        ("TEL" | "RELATED" | "UID" | "KEY", None) => auto,
        ("TEL" | "RELATED" | "UID" | "KEY", Some(_)) => Class::Reject,
        ("PHOTO", None | Some("uri")) => auto,
        ("PHOTO", Some(_)) => return None,
        ("TZ", None | Some("text")) => Class::Text,
        ("TZ", Some("uri")) => must,
        ("TZ", Some("utc-offset")) => return None,
        ("TZ", Some(_)) => Class::Reject,
        (_, None | Some("uri")) => must,
        _ => return None,
    })
}

const NAMES: [&str; 16] = [
    "TEL",
    "RELATED",
    "UID",
    "KEY",
    "PHOTO",
    "TZ",
    "SOURCE",
    "IMPP",
    "LOGO",
    "MEMBER",
    "GEO",
    "SOUND",
    "URL",
    "FBURL",
    "CALADRURI",
    "CALURI",
];

/// One property with a raw value.
fn classify(cx: &mut Cx, name: &str, value: Option<&'static str>, text: &str, raw: &str) -> R {
    if uri::huge_port(text) {
        return Ok(());
    }
    let is_uri = uri::valid(text);
    let Some(want) = class(name, value, is_uri) else {
        return Ok(());
    };
    let r = &mut cx.rng;
    let mut params = String::new();
    if r.chance(1, 4) {
        params.push_str(r.pick(&[
            ";PREF=1",
            ";MEDIATYPE=text/plain",
            ";ALTID=\"uri:x\"",
            ";X-Y=text",
        ]));
    }
    if let Some(v) = value {
        let v = wire::recase(r, v);
        params.push_str(&format!(";VALUE={v}"));
    }
    if r.chance(1, 6) {
        params.push_str(r.pick(&[";PID=1", ";LANGUAGE=en", ";SORT-AS=\"a\""]));
    }
    let kind = if name == "MEMBER" {
        "KIND:group\r\n"
    } else {
        ""
    };
    let group = if r.chance(1, 8) { "g." } else { "" };
    let input = format!(
        "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n{kind}{group}{name}{params}:{raw}\r\nNOTE:n\r\nEND:VCARD\r\n"
    );
    cx.input = input.clone();
    let got = vcard4::parse(&input);
    let cards = match (got, want) {
        (Err(_), Class::Reject) => {
            cx.count("rejected");
            let c = match vcard4::parse_loose(&input) {
                Ok(c) => c,
                Err(e) => return fail("loose parsing fails", &input, e.to_string()),
            };
            let d = dump_all(&c).concat();
            if d.iter().any(|p| p.name == name) || !d.iter().any(|p| p.name == "NOTE") {
                return fail(
                    "loose parsing does not drop exactly this property",
                    &input,
                    format!("{d:?}"),
                );
            }
            return Ok(());
        }
        (Err(e), _) => return fail(format!("{name}: rejected"), &input, e.to_string()),
        (Ok(c), Class::Reject) => {
            return fail(
                format!("{name}: accepted"),
                &input,
                format!("{:?}", dump_all(&c)),
            )
        }
        (Ok(c), _) => c,
    };
    for round in 0..2 {
        let cards = if round == 0 {
            cards.clone()
        } else {
            // as written by the library; writing must not change the class
            match vcard4::parse(cards[0].to_string()) {
                Ok(c) => c,
                Err(e) => return fail("written value rejected", &input, e.to_string()),
            }
        };
        let d = dump_all(&cards).concat();
        let Some(v) = d.iter().find(|p| p.name == name) else {
            return fail(format!("{name}: lost"), &input, format!("{d:?}"));
        };
        let ok = match (&v.val, want) {
            (MVal::Text(t), Class::Text) => t == text,
            (MVal::Uri(u), Class::Uri) => {
                // IPv6 literals have several spellings
                text.contains("://[") || uri::fold_scheme(u) == uri::canonical(text)
            }
            _ => false,
        };
        if !ok {
            return fail(
                format!("{name}: classified wrongly"),
                &input,
                format!("valid URI: {is_uri}, VALUE {value:?}, got {:?}", v.val),
            );
        }
    }
    cx.count(if want == Class::Uri { "URIs" } else { "texts" });
    cx.count(match value {
        Some("text") => "VALUE=text",
        Some("uri") => "VALUE=uri",
        Some(_) => "VALUE=other",
        None => "no VALUE",
    });
    Ok(())
}

const PIECES: [&str; 15] = [
    "a", "A", ":", "/", "?", "#", "@", "%", "f", "[", "]", ".", "9", "-", " ",
];
const PREFIXES: [&str; 8] = [
    "",
    "a:",
    "a://",
    "a://h:",
    "a://[::1",
    "h+-.1:",
    "a:%",
    "a://u:1@h",
];

fn short_uris(cx: &mut Cx) -> R {
    let s: String = nth_pieces(&PIECES, cx.idx)
        .into_iter()
        .map(|i| PIECES[i])
        .collect();
    cx.seen(&s);
    for pre in PREFIXES {
        let t = format!("{pre}{s}");
        if uri::huge_port(&t) {
            continue;
        }
        cx.input = t.clone();
        let want = uri::valid(&t);
        match (t.parse::<vcard4::Uri>(), want) {
            (Ok(u), true) => {
                let u = u.to_string();
                if !t.contains("://[") && uri::fold_scheme(&u) != uri::canonical(&t) {
                    return fail("a URI changes", &t, u);
                }
                cx.count("short URIs");
            }
            (Err(_), false) => cx.count("short non-URIs"),
            (g, w) => return fail("syntax of URIs", &t, format!("valid: {w}, got {g:?}")),
        }
        // through a document: one of the properties in turn, sometimes
        if (cx.idx + pre.len() as u64) % 8 == 0 {
            let name = NAMES[(cx.idx / 8) as usize % NAMES.len()];
            let value = match cx.rng.below(4) {
                0 => Some("text"),
                1 => Some("uri"),
                _ => None,
            };
            classify(cx, name, value, &t, &t)?;
        }
    }
    Ok(())
}

/// A URI or something near one.
fn near_uri(r: &mut Rng) -> String {
    let mut s = match r.below(8) {
        0 => gen::text(r),
        1 => gen::text_not_uri(r),
        2 => r
            .pick(&[
                "+1-555-0100",
                "tel:+1 555",
                "Tel:+1-555",
                "urn:uuid:not really",
                "mailto:a b@c",
                "http://example.com",
                "example.com",
                "C:\\x",
                "12:30",
                "a:b",
                "geo:1,2",
                "data:,x",
                "Re: hello",
                "http:",
                "tel:",
                ":",
                "x:",
                "ftp://ftp.example.com/\u{fc}",
                "MIICajCCAdOgAwIBAgICBEUwDQYJKoZIhvcNAQEEBQA=",
                "https://[::1]:80/a",
                "HTTP://EXAMPLE.COM/A",
            ])
            .to_string(),
        _ => gen::uri(r),
    };
    if r.chance(1, 3) && !s.is_empty() {
        let k = r.below(s.chars().count());
        let at = s.char_indices().nth(k).map_or(0, |c| c.0);
        let x = *r.of(&[
            " ", "%", "%4", "<", "\"", "\u{e9}", "#", "[", "\\", "^", ":", "@", "", "//", "{", "|",
            "`", "%zz", "%41",
        ]);
        if x.is_empty() {
            s.remove(at);
        } else {
            s.insert_str(at, x);
        }
    }
    s
}

fn matrix(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let text = near_uri(r);
    let text: String = text
        .chars()
        .filter(|c| !c.is_control() || *c == '\n')
        .collect();
    let name: &str = r.pick(&NAMES);
    let value = match r.below(8) {
        0 | 1 => Some("text"),
        2 | 3 => Some("uri"),
        4 => Some(*r.of(&VALUES)),
        _ => None,
    };
    let st = wire::Style {
        escapes: r.chance(1, 3),
        ..wire::PLAIN
    };
    let raw = wire::esc(r, &st, &text, "");
    let raw = if r.bool() {
        raw
    } else {
        raw.replace(',', "\\,").replace("\\\\,", "\\,")
    };
    if wire_unescape(&raw) != text {
        return Ok(());
    }
    cx.seen(&format!("{name}|{value:?}|{raw}"));
    classify(cx, name, value, &text, &raw)
}

fn wire_unescape(s: &str) -> String {
    crate::reader::unescape(s, "").unwrap_or_default()
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "TEL, RELATED, UID, KEY, PHOTO, TZ and the URI-only properties hold text or a URI as VALUE says, otherwise as an independent RFC 3986 recognizer says; the URI or text delivered is the one written.",
        fams: vec![
            growing("short URIs", short_uris, upto(15, 4), upto(15, 5)),
            fam("matrix", matrix, 60_000, 3_000_000),
            exhaustive("sizes", sizes::uris, sizes::URIS),
            fam("reference", refer::uris, 20_000, 2_000_000),
        ],
        must: vec![
            "short URIs", "short non-URIs", "URIs", "texts", "rejected",
            "VALUE=text", "VALUE=uri", "no VALUE",
        ],
    }
}

// ---------------------------------------------------------------- C20

struct Photo {
    /// TYPE tokens, other parameters, text
    line: String,
    prop: MProp,
    /// Bytes when it counts as an embedded JPEG.
    jpeg: Option<Vec<u8>>,
}

fn photo(r: &mut Rng) -> Photo {
    let size = match r.below(12) {
        0 => 5000,
        1 => 0,
        2 => 3,
        _ => 90,
    };
    let data = gen::bytes(r, size);
    let b64 = gen::b64(&data);
    // what it is
    let is_uri = r.chance(1, 6);
    let encoding = match r.below(8) {
        0 => None,
        1 => Some(r.pick(&["q", "base64", "8bit", "", "bb", "x"]).to_string()),
        _ => Some("b".to_string()),
    };
    let mut types: Vec<MType> = Vec::new();
    let jpeg_type = r.chance(4, 5);
    for _ in 0..r.below(3) {
        types.push(match r.below(6) {
            0 => MType::Home,
            1 => MType::Work,
            2 => MType::Ext(
                r.pick(&["PNG", "gif", "JPG", "JPE", "JPEGX", "XJPEG", "pjpeg"])
                    .to_string(),
            ),
            3 => MType::Tel(r.pick(&TELS)),
            4 => MType::Rel(r.pick(&RELS)),
            _ => MType::Ext(gen::alnum(r, 1, 3)),
        });
    }
    if jpeg_type {
        let i = r.below(types.len() + 1);
        types.insert(i, MType::Ext(wire::recase(r, "JPEG")));
    }
    let has_jpeg = types
        .iter()
        .any(|t| matches!(t, MType::Ext(s) if s.eq_ignore_ascii_case("jpeg")));
    let mut m = MParams::default();
    if r.chance(1, 5) {
        m.pref = Some(r.range(1, 100) as u8);
    }
    if r.chance(1, 6) {
        m.alt_id = Some("b".into());
    }
    if !types.is_empty() {
        m.types = Some(types);
    }
    let mut ext: Vec<(String, Vec<String>)> = Vec::new();
    if r.chance(1, 5) {
        ext.push((gen::xname(r), vec!["b".into()]));
    }
    if let Some(e) = &encoding {
        let mut l = vec![e.clone()];
        // a list of others is not `b`
        if e != "b" && !e.is_empty() && r.chance(1, 3) {
            l.push("b".into());
        }
        ext.push((wire::recase(r, "ENCODING"), l));
    }
    if r.chance(1, 5) {
        ext.push((gen::xname(r), vec!["JPEG".into(), "b".into()]));
    }
    if !ext.is_empty() {
        m.ext = Some(ext);
    }
    let val = if is_uri {
        MVal::Uri(format!("data:image/jpeg;base64,{b64}"))
    } else {
        if r.chance(1, 4) {
            m.value = Some("text");
        }
        MVal::Text(b64)
    };
    let params = if m == MParams::default() {
        None
    } else {
        Some(m)
    };
    let group = if r.chance(1, 5) {
        Some(gen::group(r))
    } else {
        None
    };
    let jpeg = if !is_uri && encoding.as_deref() == Some("b") && has_jpeg {
        Some(data)
    } else {
        None
    };
    let prop = MProp {
        name: "PHOTO".into(),
        group,
        params,
        val,
    };
    let line = photo_line(r, &prop);
    Photo { line, prop, jpeg }
}

/// Types are written without the `X-` prefix.
fn photo_line(r: &mut Rng, p: &MProp) -> String {
    let mut st = wire::Style::random(r);
    st.escapes = false;
    let mut q = p.clone();
    let mut types = None;
    if let Some(m) = &mut q.params {
        types = m.types.take();
        if *m == MParams::default() {
            q.params = None;
        }
    }
    let line = wire::line(r, &st, &q);
    let Some(types) = types else { return line };
    let toks: Vec<String> = types
        .iter()
        .map(|t| match t {
            MType::Ext(s) => s.clone(),
            MType::Home => "home".into(),
            MType::Work => "WORK".into(),
            MType::Tel(s) | MType::Rel(s) => s.to_string(),
        })
        .collect();
    // after the name
    let at = line.find([':', ';']).unwrap_or(line.len());
    let (a, b) = line.split_at(at);
    format!("{a};TYPE={}{b}", toks.join(","))
}

fn photos(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.below(6);
    let photos: Vec<Photo> = (0..n).map(|_| photo(r)).collect();
    let mut lines: Vec<String> = vec!["FN:x".into()];
    for p in &photos {
        if r.chance(1, 3) {
            lines.push(format!(
                "{};TYPE=JPEG;ENCODING=b:AAAA",
                r.pick(&["X-PHOTO", "NOTE", "PHOTO.KEY"])
            ));
        }
        lines.push(p.line.clone());
        if r.chance(1, 4) {
            lines.push("KEY;VALUE=text;TYPE=jpeg;ENCODING=b:BBBB".into());
        }
    }
    let mut text = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\n");
    let folds = *r.of(&[0usize, 5, 30, 200]);
    for l in &lines {
        // X- properties do not take TYPE values of other lines: any is fine
        text.push_str(&wire::fold(r, l, folds));
        text.push_str("\r\n");
    }
    text.push_str("END:VCARD\r\n");
    let want: Vec<Vec<u8>> = photos.iter().filter_map(|p| p.jpeg.clone()).collect();
    cx.seen(&text);
    let card = match vcard4::parse(&text) {
        Ok(mut c) if c.len() == 1 => c.remove(0),
        Ok(c) => return fail("cards", &text, c.len().to_string()),
        Err(e) => return fail("a card with photos is rejected", &text, e.to_string()),
    };
    extracted(&card, &want, &text, "parsed")?;
    // as written and parsed again, cloned, and in memory
    extracted(&card.clone(), &want, &text, "cloned")?;
    match vcard4::parse(card.to_string()) {
        Ok(c) => extracted(&c[0], &want, &text, "written and parsed")?,
        Err(e) => {
            return fail(
                "a written card with photos is rejected",
                &text,
                e.to_string(),
            )
        }
    }
    let made: MCard = std::iter::once(p("FN", MVal::Text("x".into())))
        .chain(photos.iter().map(|p| p.prop.clone()))
        .collect();
    match build(&made) {
        Ok(c) => extracted(&c, &want, &text, "made in memory")?,
        Err(e) => return fail("model", &text, e),
    }
    cx.add("photos extracted", want.len() as u64);
    cx.add("photos left alone", (n - want.len()) as u64);
    Ok(())
}

fn extracted(card: &vcard4::Vcard, want: &[Vec<u8>], input: &str, how: &str) -> R {
    match card.parse_photo_jpeg() {
        Ok(got) if got == want => Ok(()),
        Ok(got) => fail(
            format!("photos extracted ({how})"),
            input,
            format!(
                "expected lengths {:?}, got {:?}",
                want.iter().map(|v| v.len()).collect::<Vec<_>>(),
                got.iter().map(|v| v.len()).collect::<Vec<_>>()
            ),
        ),
        Err(e) => fail(format!("extraction fails ({how})"), input, e.to_string()),
    }
}

/// Every length of data, every byte value.
fn photo_lengths(cx: &mut Cx) -> R {
    let n = cx.idx as usize;
    let r = &mut cx.rng;
    let data: Vec<u8> = match r.below(4) {
        0 => (0..n).map(|i| i as u8).collect(),
        1 => vec![0xff; n],
        2 => vec![0; n],
        _ => (0..n).map(|_| r.next() as u8).collect(),
    };
    let text = doc(&[format!("PHOTO;ENCODING=b;TYPE=JPEG:{}", gen::b64(&data))]);
    cx.seen(&text);
    let card = match vcard4::parse(&text) {
        Ok(mut c) => c.remove(0),
        Err(e) => return fail("rejected", &text, e.to_string()),
    };
    cx.count("lengths");
    extracted(&card, &[data], &text, "length")
}

const PHOTO_SIZES: [usize; 27] = [
    2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385,
    24575, 24576, 24577, 32767, 32768, 32769, 49151, 49152, 49153, 65535, 65536, 65537,
];

/// Large photos, and many small ones.
fn photo_sizes(cx: &mut Cx) -> R {
    let n = PHOTO_SIZES[cx.idx as usize / 2];
    let r = &mut cx.rng;
    let data: Vec<Vec<u8>> = if cx.idx % 2 == 0 {
        vec![(0..n).map(|_| r.next() as u8).collect()]
    } else {
        (0..n / 30).map(|i| i.to_string().into_bytes()).collect()
    };
    let mut text = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n");
    for d in &data {
        let l = format!("PHOTO;ENCODING=b;TYPE=JPEG:{}", gen::b64(d));
        text.push_str(&wire::fold(r, &l, 20));
        text.push_str("\r\n");
    }
    text.push_str("END:VCARD\r\n");
    cx.seen(&text);
    let card = match vcard4::parse(&text) {
        Ok(mut c) => c.remove(0),
        Err(e) => return fail("rejected", &text, e.to_string()),
    };
    cx.count("sizes");
    extracted(&card, &data, &text, "large")?;
    match vcard4::parse(card.to_string()) {
        Ok(c) => extracted(&c[0], &data, &text, "large, written and parsed"),
        Err(e) => fail("rejected when written", &text, e.to_string()),
    }
}

/// Bad base64 in one of the photos.
fn bad_photos(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1, 60) as usize;
    let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let mut s = gen::b64(&data);
    let kind = r.below(7);
    let at = r.below(s.trim_end_matches('=').len());
    match kind {
        // characters outside the alphabet
        0 => s.insert_str(at, r.pick(&["!", "-", "_", ".", "*", "\u{e9}", "@", "#"])),
        1 => s.replace_range(at..at + 1, r.pick(&["!", "-", "_", ".", "~", "?"])),
        // padding in the middle, missing or too much
        2 => s.insert_str(at, "="),
        3 => s.push('='),
        4 => {
            if s.ends_with('=') {
                s.pop();
            } else {
                s.remove(at);
            }
        }
        5 => s.insert_str(at, " "),
        _ => s.push('A'),
    }
    let is_jpeg = r.chance(3, 4);
    let good = gen::b64(&gen::bytes(r, 20));
    let bad = if is_jpeg {
        format!("PHOTO;ENCODING=b;TYPE=JPEG:{s}")
    } else {
        // not to be decoded at all
        r.pick(&[
            "PHOTO;ENCODING=b;TYPE=PNG:",
            "PHOTO;TYPE=JPEG:",
            "PHOTO;ENCODING=b:",
            "PHOTO;ENCODING=q;TYPE=JPEG:",
            "PHOTO:",
        ])
        .to_string()
            + &s
    };
    let mut lines = vec![format!("PHOTO;ENCODING=b;TYPE=jpeg:{good}"), bad];
    if r.bool() {
        lines.reverse();
    }
    let text = doc(&lines);
    cx.seen(&text);
    let card = match vcard4::parse(&text) {
        Ok(mut c) => c.remove(0),
        Err(e) => return fail("rejected", &text, e.to_string()),
    };
    match (card.parse_photo_jpeg(), is_jpeg) {
        (Err(_), true) => {
            cx.count("bad base64 refused");
            Ok(())
        }
        (Ok(l), false) if l.len() == 1 => {
            cx.count("not decoded");
            Ok(())
        }
        (g, _) => fail("bad base64", &text, format!("{g:?}")),
    }
}

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "parse_photo_jpeg returns, in order, exactly the bytes of the PHOTO text properties with ENCODING=b and a TYPE of JPEG, and an error when one of them is not base64.",
        fams: vec![
            fam("photos", photos, 20_000, 800_000),
            growing("lengths", photo_lengths, 1500, 20_000),
            exhaustive("sizes", photo_sizes, 2 * PHOTO_SIZES.len() as u64),
            fam("bad photos", bad_photos, 10_000, 400_000),
        ],
        must: vec![
            "photos extracted", "photos left alone", "lengths",
            "bad base64 refused", "not decoded",
        ],
    }
}

// ---------------------------------------------------------------- C23

/// All spellings in upper and lower case, at most 2^n.
fn spellings(tok: &str, cap: u64, r: &mut Rng) -> Vec<String> {
    let n = tok.chars().filter(|c| c.is_ascii_alphabetic()).count() as u32;
    let spell = |mask: u64| -> String {
        let mut k = 0;
        tok.chars()
            .map(|c| {
                if c.is_ascii_alphabetic() {
                    k += 1;
                    if mask >> (k - 1) & 1 == 1 {
                        return c.to_ascii_uppercase();
                    }
                }
                c
            })
            .collect()
    };
    if 1u64 << n <= cap {
        (0..1 << n).map(spell).collect()
    } else {
        let mut v = vec![spell(0), spell(u64::MAX)];
        v.extend((2..cap).map(|_| spell(r.next())));
        v
    }
}

fn all_tokens() -> Vec<(&'static str, &'static str)> {
    let mut v = Vec::new();
    v.extend(TELS.iter().map(|t| ("telephone", *t)));
    v.extend(RELS.iter().map(|t| ("related", *t)));
    v.extend(VALUES.iter().map(|t| ("value", *t)));
    v.extend(["home", "work"].iter().map(|t| ("homework", *t)));
    v.extend(KINDS.iter().map(|t| ("kind", *t)));
    v.extend(SEXES.iter().map(|t| ("sex", *t)));
    v
}

fn m_type(kind: &str, tok: &'static str) -> MType {
    match kind {
        "telephone" => MType::Tel(tok),
        "related" => MType::Rel(tok),
        _ if tok == "home" => MType::Home,
        _ => MType::Work,
    }
}

/// Each token: exact value, printed token, meaning inside a card.
fn tokens(cx: &mut Cx) -> R {
    let all = all_tokens();
    let (kind, tok) = all[cx.idx as usize % all.len()];
    cx.input = tok.to_string();
    let cap = if cx.thorough { 1 << 16 } else { 64 };
    let sp = spellings(tok, cap, &mut cx.rng);
    cx.add("tokens", 1);
    match kind {
        "kind" => {
            expect(
                "Kind",
                tok,
                tok.parse::<Kind>().map(|k| d_kind(&k)),
                Some(tok),
            )?;
            expect::<_, ()>(
                "Kind Display",
                tok,
                Ok(b_kind(tok).to_string()),
                Some(tok.to_string()),
            )?;
            let t = doc(&[format!("KIND:{tok}")]);
            let want = [p("KIND", MVal::Kind(tok)), p("FN", MVal::Text("x".into()))];
            expect_parse("KIND", &t, &[want.to_vec()])?;
        }
        "sex" => {
            expect("Sex", tok, tok.parse::<Sex>().map(|k| d_sex(&k)), Some(tok))?;
            expect::<_, ()>(
                "Sex Display",
                tok,
                Ok(b_sex(tok).to_string()),
                Some(tok.to_string()),
            )?;
            expect(
                "Gender",
                tok,
                tok.parse::<Gender>()
                    .map(|g| (d_sex(&g.sex), g.identity.clone())),
                Some((tok, None)),
            )?;
            let t = doc(&[format!("GENDER:{tok}")]);
            let want = [
                p("FN", MVal::Text("x".into())),
                p("GENDER", MVal::Gender(tok, None)),
            ];
            expect_parse("GENDER", &t, &[want.to_vec()])?;
        }
        "value" => {
            for s in &sp {
                expect(
                    "ValueType",
                    s,
                    s.parse::<ValueType>().map(|k| d_value(&k)),
                    Some(tok),
                )?;
            }
            expect::<_, ()>(
                "ValueType Display",
                tok,
                Ok(b_value(tok).to_string()),
                Some(tok.to_string()),
            )?;
        }
        _ => {
            for s in &sp {
                match kind {
                    "telephone" => expect(
                        "TelephoneType",
                        s,
                        s.parse::<TelephoneType>().map(|k| d_tel(&k)),
                        Some(tok),
                    )?,
                    "related" => expect(
                        "RelatedType",
                        s,
                        s.parse::<RelatedType>().map(|k| d_rel(&k)),
                        Some(tok),
                    )?,
                    _ => {}
                }
                expect(
                    "TypeParameter",
                    s,
                    s.parse::<TypeParameter>().map(|k| d_type(&k)),
                    Some(m_type(kind, tok)),
                )?;
            }
            match kind {
                "telephone" => expect::<_, ()>(
                    "TelephoneType Display",
                    tok,
                    Ok(b_tel(tok).to_string()),
                    Some(tok.to_string()),
                )?,
                "related" => expect::<_, ()>(
                    "RelatedType Display",
                    tok,
                    Ok(b_rel(tok).to_string()),
                    Some(tok.to_string()),
                )?,
                _ => {}
            }
            let t = b_type(&m_type(kind, tok));
            expect::<_, ()>(
                "TypeParameter Display",
                tok,
                Ok(t.to_string()),
                Some(tok.to_string()),
            )?;
            // in a card: on every property that takes TYPE, alone and not
            let spelled = sp[cx.rng.below(sp.len())].clone();
            for name in gen::TYPE_ALLOWED {
                let other = match gen::mtype(&mut cx.rng) {
                    MType::Ext(_) => MType::Ext(format!("q{}", gen::alnum(&mut cx.rng, 1, 9))),
                    t => t,
                };
                let before = cx.rng.bool();
                let st = wire::PLAIN;
                let o = wire::type_token(&mut cx.rng, &st, &other);
                let val = sample(&mut cx.rng, name);
                let v = wire::value(&mut cx.rng, &st, &p(name, val.clone()));
                let (list, types) = if before {
                    (format!("{o},{spelled}"), vec![other, m_type(kind, tok)])
                } else {
                    (format!("{spelled},{o}"), vec![m_type(kind, tok), other])
                };
                let types_for = |t: Vec<MType>| MProp {
                    params: Some(MParams {
                        types: Some(t),
                        ..Default::default()
                    }),
                    ..p(name, val.clone())
                };
                let t = doc(&[
                    format!("{name};TYPE={list}:{v}"),
                    format!("{name};TYPE={spelled}:{v}"),
                ]);
                let mut want = vec![types_for(types), types_for(vec![m_type(kind, tok)])];
                want.insert(0, p("FN", MVal::Text("x".into())));
                let cards = expect_parse("TYPE in a card", &t, &[sorted(want.clone())])?;
                expect_parse("TYPE written", &cards[0].to_string(), &[sorted(want)])?;
                cx.count("TYPE in cards");
            }
        }
    }
    Ok(())
}

/// A simple value for a property.
fn sample(r: &mut Rng, name: &str) -> MVal {
    if gen::URI_PROPS.contains(&name) {
        return MVal::Uri(gen::uri(r));
    }
    match name {
        "TEL" | "RELATED" | "KEY" | "PHOTO" => MVal::Uri(gen::uri(r)),
        "ADR" => MVal::Adr(Default::default()),
        "LANG" => MVal::Lang("en".into()),
        "ORG" | "CATEGORIES" => MVal::List(vec!["a".into(), "b".into()]),
        _ => MVal::Text("v".into()),
    }
}

/// Not one of the tokens: enumerated short texts and edits of tokens.
fn not_tokens(cx: &mut Cx) -> R {
    let all = all_tokens();
    let r = &mut cx.rng;
    let s = if cx.idx < upto(8, 3) {
        const A: [&str; 8] = ["M", "m", "e", "-", " ", "X", "O", "1"];
        nth_pieces(&A, cx.idx)
            .into_iter()
            .map(|i| A[i])
            .collect::<String>()
    } else {
        let mut s: Vec<char> = all[r.below(all.len())].1.chars().collect();
        for _ in 0..r.range(1, 2) {
            let i = r.below(s.len() + 1);
            let c = *r.of(&[
                'a', 'e', 's', '-', ' ', 'x', 'M', '.', '\u{e9}', '_', 't', 'n',
            ]);
            match r.below(4) {
                0 if i < s.len() => {
                    s.remove(i);
                }
                1 if i < s.len() => s[i] = c,
                2 if i + 1 < s.len() => s.swap(i, i + 1),
                _ => s.insert(i, c),
            }
        }
        s.into_iter().collect()
    };
    cx.input = s.clone();
    cx.seen(&s);
    let is = |kind: &str, fold: bool| {
        all.iter()
            .find(|(k, t)| {
                *k == kind
                    && if fold {
                        t.eq_ignore_ascii_case(&s)
                    } else {
                        *t == s
                    }
            })
            .map(|x| x.1)
    };
    let cased = |kind: &str| is(kind, true).is_some() && is(kind, false).is_none();
    expect(
        "TelephoneType",
        &s,
        s.parse::<TelephoneType>().map(|k| d_tel(&k)),
        is("telephone", true),
    )?;
    expect(
        "RelatedType",
        &s,
        s.parse::<RelatedType>().map(|k| d_rel(&k)),
        is("related", true),
    )?;
    expect(
        "ValueType",
        &s,
        s.parse::<ValueType>().map(|k| d_value(&k)),
        is("value", true),
    )?;
    if !cased("kind") {
        expect(
            "Kind",
            &s,
            s.parse::<Kind>().map(|k| d_kind(&k)),
            is("kind", false),
        )?;
    }
    if !cased("sex") {
        expect(
            "Sex",
            &s,
            s.parse::<Sex>().map(|k| d_sex(&k)),
            is("sex", false),
        )?;
    }
    // TYPE: anything else is an extension that carries the token
    let want = match (
        is("telephone", true),
        is("related", true),
        is("homework", true),
    ) {
        (Some(t), _, _) => MType::Tel(t),
        (_, Some(t), _) => MType::Rel(t),
        (_, _, Some(t)) => m_type("homework", t),
        _ => MType::Ext(
            s.strip_prefix("X-")
                .or_else(|| s.strip_prefix("x-"))
                .unwrap_or(&s)
                .to_string(),
        ),
    };
    let t = match s.parse::<TypeParameter>() {
        Ok(t) => t,
        Err(e) => return fail("TypeParameter: rejected", &s, e.to_string()),
    };
    if d_type(&t) != want {
        return fail("TypeParameter", &s, format!("expected {want:?}, got {t:?}"));
    }
    let shown = t.to_string();
    match shown.parse::<TypeParameter>() {
        Ok(u) if u == t => {}
        u => {
            return fail(
                "TypeParameter Display",
                &s,
                format!("{t:?} shown {shown:?} read {u:?}"),
            )
        }
    }
    cx.count("near tokens");
    if matches!(want, MType::Ext(_)) {
        cx.count("extension types");
    }
    if !s.is_empty() && is("value", true).is_none() && !s.contains(' ') {
        // an unknown VALUE is refused in a card as well
        let t = doc(&[format!("X-A;VALUE={s}:x")]);
        if vcard4::parse(&t).is_ok() {
            return fail("unknown VALUE accepted in a card", &t, "");
        }
    }
    if is("kind", true).is_none() {
        let t = doc(&[format!("KIND:{s}")]);
        if vcard4::parse(&t).is_ok() {
            return fail("unknown KIND accepted in a card", &t, "");
        }
    }
    if is("sex", true).is_none() {
        let t = doc(&[format!("GENDER:{s}")]);
        if vcard4::parse(&t).is_ok() {
            return fail("unknown sex accepted in a card", &t, "");
        }
        let t = doc(&[format!("GENDER:{s};text")]);
        if vcard4::parse(&t).is_ok() {
            return fail("unknown sex accepted in a card", &t, "");
        }
    }
    Ok(())
}

/// Printed tokens of distinct values are distinct.
fn distinct(cx: &mut Cx) -> R {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    for (kind, tok) in all_tokens() {
        let (class, shown) = match kind {
            "kind" => ("kind", b_kind(tok).to_string()),
            "sex" => ("sex", b_sex(tok).to_string()),
            "value" => ("value", b_value(tok).to_string()),
            _ => ("type", b_type(&m_type(kind, tok)).to_string()),
        };
        if let Some(o) = seen.insert(format!("{class} {shown}"), tok.to_string()) {
            return fail(
                "two values print the same token",
                shown,
                format!("{tok} and {o}"),
            );
        }
        cx.add("values printed", 1);
    }
    // Pid
    let mut pids: BTreeMap<String, (u64, Option<u64>)> = BTreeMap::new();
    for a in [0u64, 1, 2, 11, 12, 112, u64::MAX] {
        for b in [None, Some(0u64), Some(1), Some(2), Some(12), Some(u64::MAX)] {
            let s = Pid::new(a, b).to_string();
            if let Some(o) = pids.insert(s.clone(), (a, b)) {
                return fail("two PIDs print the same", s, format!("{a} {b:?} {o:?}"));
            }
        }
    }
    Ok(())
}

fn pids(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (a, b) = (
        gen::uint(r),
        if r.bool() { Some(gen::uint(r)) } else { None },
    );
    let s = match b {
        Some(b) => format!("{a}.{b}"),
        None => a.to_string(),
    };
    let get = |s: &str| s.parse::<Pid>().map(|p| (p.local, p.source));
    expect("Pid", &s, get(&s), Some((a, b)))?;
    expect::<_, ()>(
        "Pid Display",
        &s,
        Ok(Pid::new(a, b).to_string()),
        Some(s.clone()),
    )?;
    // malformed
    let bad = match r.below(12) {
        0 => format!("{s}."),
        1 => format!(".{s}"),
        2 => format!("{a}..1"),
        3 => format!("{a}.1.2"),
        4 => format!("-{s}"),
        5 => format!("{s} "),
        6 => format!(" {s}"),
        7 => format!("{a}0000000000000000000000"),
        8 => format!("{a}.18446744073709551616"),
        9 => format!("{a},1"),
        10 => format!("{s}a"),
        _ => r
            .pick(&["", ".", "a", "1.a", "a.1", "1;2", "0x1", "1e1", "\u{661}"])
            .to_string(),
    };
    if !(bad.starts_with("0000") && bad.len() > 20) && !(a == 0 && bad.starts_with("00")) {
        expect("Pid", &bad, get(&bad), None)?;
    }
    // CLIENTPIDMAP
    let u = gen::uri(r);
    let n = gen::uint(r);
    let s = format!("{n};{u}");
    let get = |s: &str| {
        s.parse::<ClientPidMap>()
            .map(|c| (c.source, c.uri.to_string()))
    };
    expect(
        "ClientPidMap",
        &s,
        get(&s),
        if n == 0 { None } else { Some((n, u.clone())) },
    )?;
    if n > 0 {
        let shown = s.parse::<ClientPidMap>().map(|c| c.to_string());
        expect("ClientPidMap Display", &s, shown, Some(s.clone()))?;
    }
    let bad = match r.below(9) {
        0 => u.clone(),
        1 => format!("{n}"),
        2 => format!("{n}:{u}"),
        3 => format!("{n};"),
        4 => format!("{n};not a uri"),
        5 => format!("-{n};{u}"),
        6 => format!("x;{u}"),
        7 => format!(";{u}"),
        _ => format!("{n}.1;{u}"),
    };
    expect("ClientPidMap", &bad, get(&bad), None)?;
    let t = doc(&[format!("CLIENTPIDMAP:{bad}")]);
    cx.seen(&t);
    if vcard4::parse(&t).is_ok() {
        return fail("malformed CLIENTPIDMAP accepted", &t, "");
    }
    cx.count("PIDs");
    Ok(())
}

fn genders(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let sex: &'static str = r.pick(&SEXES);
    let id = if r.chance(3, 4) {
        Some(gen::text(r))
    } else {
        None
    };
    let g = Gender {
        sex: b_sex(sex),
        identity: id.clone(),
    };
    let s = g.to_string();
    let get = |s: &str| {
        s.parse::<Gender>()
            .map(|g| (d_sex(&g.sex), g.identity.clone()))
    };
    expect("Gender Display", &s, get(&s), Some((sex, id.clone())))?;
    let st = wire::FULL;
    let w = wire::value(r, &st, &p("GENDER", MVal::Gender(sex, id.clone())));
    expect("Gender", &w, get(&w), Some((sex, id.clone())))?;
    let t = doc(&[format!("GENDER:{w}")]);
    cx.seen(&t);
    expect_parse(
        "GENDER",
        &t,
        &[vec![
            p("FN", MVal::Text("x".into())),
            p("GENDER", MVal::Gender(sex, id)),
        ]],
    )?;
    cx.count("genders");
    Ok(())
}

/// TYPE extensions with any token.
fn ext_types(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let t = gen::mtype(r);
    let b = b_type(&t);
    let s = b.to_string();
    expect(
        "TypeParameter Display",
        &s,
        s.parse::<TypeParameter>().map(|x| d_type(&x)),
        Some(t.clone()),
    )?;
    if let MType::Ext(e) = &t {
        for s in [format!("X-{e}"), format!("x-{e}")] {
            expect(
                "TypeParameter",
                &s,
                s.parse::<TypeParameter>().map(|x| d_type(&x)),
                Some(t.clone()),
            )?;
        }
    }
    let v = mutate::value(r);
    cx.seen(&format!("{s} {v}"));
    if let Ok(x) = v.parse::<TypeParameter>() {
        let s = x.to_string();
        match s.parse::<TypeParameter>() {
            Ok(y) if y == x => {}
            y => {
                return fail(
                    "TypeParameter Display",
                    &v,
                    format!("{x:?} shown {s:?} read {y:?}"),
                )
            }
        }
    } else {
        return fail("TypeParameter: rejected", &v, "");
    }
    cx.count("extension types");
    Ok(())
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "Each documented token parses to its value (in any case where documented), prints back to it, means the same inside a card, and everything else is rejected or becomes an extension type.",
        fams: vec![
            exhaustive("tokens", tokens, all_tokens().len() as u64),
            fam("not tokens", not_tokens, 20_000, 1_000_000),
            exhaustive("distinct", distinct, 1),
            exhaustive("sizes", sizes::tokens, sizes::TOKENS),
            fam("PIDs", pids, 10_000, 500_000),
            fam("genders", genders, 6000, 300_000),
            fam("extension types", ext_types, 10_000, 500_000),
            fam("reference", refer::tokens, 20_000, 2_000_000),
        ],
        must: vec![
            "tokens", "TYPE in cards", "near tokens", "extension types",
            "values printed", "PIDs", "genders",
        ],
    }
}
