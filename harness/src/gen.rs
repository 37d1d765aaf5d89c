//! Workload generators: texts, URIs, dates, parameters, properties, cards.

use crate::model::*;
use crate::rng::Rng;

const WORDS: [&str; 16] = [
    "a",
    "Jane",
    "Doe",
    "home",
    "work",
    "text",
    "example",
    "Main St",
    "0",
    "42",
    "1985",
    "-05",
    "T10",
    "Z",
    "co-worker",
    "b64==",
];
const DELIMS: &str = ",;:\\=.-+?!'()/@#%&*<>[]{}|~^`_$\"";
const ESCAPES: [&str; 12] = [
    "\\n", "\\N", "\\,", "\\;", "\\\\", "\\", "\\:", "\\t", "\\\\n", "\\\\,", "\\\"", "\\\\\\",
];
const UNI: [&str; 36] = [
    "é",
    "e\u{301}",
    "ß",
    "İ",
    "ı",
    "ſ",
    "\u{212a}",
    "日本語",
    "中",
    "한국어",
    "Ω",
    "עִבְרִית",
    "العربية",
    "\u{1F600}",
    "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}",
    "\u{1F1E9}\u{1F1EA}",
    "\u{2028}",
    "\u{85}",
    "\u{a0}",
    "\u{feff}",
    "\u{200b}",
    "\u{10ffff}",
    "\u{fffd}",
    "\u{1112}\u{1161}\u{11ab}",
    "👍🏽",
    "\u{ba8}\u{bbf}",
    "\u{600}1",
    "\u{915}\u{94d}\u{937}",
    "\u{e01}\u{e33}",
    "\u{2764}\u{fe0f}",
    "1\u{fe0f}\u{20e3}",
    "\u{200d}",
    "\u{200c}",
    "\u{ac00}\u{11a8}",
    "\u{1f3f4}\u{e0067}\u{e0062}\u{e007f}",
    "\u{2029}",
];
const KEYWORDS: [&str; 34] = [
    "BEGIN:VCARD",
    "END:VCARD",
    "VERSION:4.0",
    "end:vcard",
    "FN:x",
    "TYPE=",
    "VALUE=uri",
    ";TYPE=home:",
    "GEO",
    "TZ",
    "geo:1,2",
    "TZ=",
    "X-FOO",
    "x-a",
    "N:",
    "NOTE",
    "item1.TEL",
    "LANGUAGE=en",
    "http://a.b/c",
    "PREF=1",
    "SORT-AS=\"",
    "LABEL=",
    "ENCODING=b",
    "CHARSET=",
    "PID=1.1",
    "\"",
    "TEL;",
    "=",
    "URL",
    "KEY",
    "XML",
    "UID",
    "REV",
    "Geo.Tz",
];

/// Any character above the ASCII ones, from all over the planes.
pub fn scalar(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => r.range(0x80, 0x2ff),
            1 => r.range(0x300, 0x1fff),
            2 => r.range(0x2000, 0x2fff),
            3 => r.range(0x3000, 0xffff),
            4 => r.range(0x10000, 0x1ffff),
            _ => r.range(0x20000, 0x10ffff),
        };
        if let Some(c) = char::from_u32(c as u32) {
            return c;
        }
    }
}

/// One piece of hostile text.
fn piece(r: &mut Rng, out: &mut String) {
    match r.below(16) {
        0..=3 => out.push_str(r.pick(&WORDS)),
        4 => out.push((b' ' + r.below(95) as u8) as char),
        5..=7 => {
            let d = DELIMS.as_bytes();
            out.push(d[r.below(d.len())] as char)
        }
        8 => out.push('\n'),
        9 => out.push(if r.chance(1, 4) { '\t' } else { ' ' }),
        10 | 11 => out.push_str(r.pick(&ESCAPES)),
        12 => out.push_str(r.pick(&UNI)),
        13 => {
            if r.chance(2, 3) {
                out.push_str(r.pick(&UNI))
            } else {
                out.push(scalar(r))
            }
        }
        14 => out.push_str(r.pick(&KEYWORDS)),
        _ => {
            for _ in 0..r.range(1, 8) {
                out.push((b'a' + r.below(26) as u8) as char)
            }
        }
    }
}

/// Text for any text value: no control characters except newline and tab.
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(100) {
        0..=3 => {}
        4..=63 => {
            for _ in 0..r.range(1, 4) {
                piece(r, &mut s)
            }
        }
        64..=86 => {
            for _ in 0..r.range(5, 20) {
                piece(r, &mut s)
            }
        }
        87..=95 => {
            // around the fold limit
            let target = r.range(55, 165) as usize;
            while s.len() < target {
                if r.chance(3, 4) {
                    s.push((b'a' + r.below(26) as u8) as char)
                } else {
                    piece(r, &mut s)
                }
            }
        }
        96..=98 => {
            // long runs of the same piece
            let n = r.range(20, 200);
            let mut p = String::new();
            piece(r, &mut p);
            for _ in 0..n {
                s.push_str(&p)
            }
        }
        _ => {
            let target = r.range(300, 3000) as usize;
            while s.len() < target {
                piece(r, &mut s)
            }
        }
    }
    if r.chance(1, 60) {
        // a very tall grapheme cluster
        s.push('e');
        for _ in 0..r.range(10, 60) {
            s.push('\u{301}')
        }
    }
    s
}

pub fn nonempty_text(r: &mut Rng) -> String {
    loop {
        let s = text(r);
        if !s.is_empty() {
            return s;
        }
    }
}

/// Text with carriage returns, for in-memory values.
pub fn text_cr(r: &mut Rng) -> String {
    let mut s = text(r);
    if r.chance(1, 4) {
        let n = r.range(1, 3);
        for _ in 0..n {
            let cr = ["\r\n", "\r", "\r\r\n", "\n\r", "\r\n\r\n"];
            let cr = cr[r.below(5)];
            let mut pos = r.below(s.len() + 1);
            while !s.is_char_boundary(pos) {
                pos -= 1;
            }
            s.insert_str(pos, cr);
        }
    }
    s
}

/// What a text is after a write/read cycle.
pub fn normal_newlines(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

/// Text for a parameter value: no double quotes either.
pub fn ptext(r: &mut Rng) -> String {
    let s = match r.below(4) {
        0 => r.pick(&WORDS).to_string(),
        _ => text(r),
    };
    let s: String = s.chars().filter(|c| *c != '"').collect();
    if s.len() > 400 && !r.chance(1, 10) {
        s.chars().take(60).collect()
    } else {
        s
    }
}

/// Does the text start with a URI scheme?
pub fn has_scheme(s: &str) -> bool {
    match s.find(':') {
        Some(p) if p > 0 => {
            s.as_bytes()[0].is_ascii_alphabetic()
                && s[..p]
                    .bytes()
                    .all(|b| b.is_ascii_alphanumeric() || b == b'+' || b == b'-' || b == b'.')
        }
        _ => false,
    }
}

/// Text that can't be taken for a URI.
pub fn text_not_uri(r: &mut Rng) -> String {
    let s = text(r);
    if has_scheme(&s) {
        format!("1{s}")
    } else {
        s
    }
}

const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

pub fn alnum(r: &mut Rng, lo: i64, hi: i64) -> String {
    (0..r.range(lo, hi))
        .map(|_| ALNUM[r.below(ALNUM.len())] as char)
        .collect()
}

fn lower(r: &mut Rng, lo: i64, hi: i64) -> String {
    (0..r.range(lo, hi))
        .map(|_| (b'a' + r.below(26) as u8) as char)
        .collect()
}

/// A valid URI in the form in which the library writes it.
pub fn uri(r: &mut Rng) -> String {
    let tail = |r: &mut Rng| -> String {
        let mut s = String::new();
        for _ in 0..r.below(4) {
            s.push('/');
            s.push_str(&alnum(r, 1, 8));
            if r.chance(1, 4) {
                s.push_str(r.pick(&[
                    ",a", ";v=1", "%20x", "~b", "@c", "=d", ":e", "+f", "!$&'()*", "%C3%A9", ".vcf",
                ]));
            }
        }
        s
    };
    match r.below(16) {
        0..=3 => {
            let mut s = format!(
                "{}://{}.{}",
                r.pick(&["http", "https", "ftp", "im", "ldap"]),
                lower(r, 1, 8),
                r.pick(&["com", "example.org", "de"])
            );
            if r.chance(1, 4) {
                s.push_str(&format!(":{}", r.range(1, 65535)));
            }
            s.push('/');
            let t = tail(r);
            s.push_str(t.trim_start_matches('/'));
            if r.chance(1, 3) {
                s.push_str(&format!(
                    "?q={}&r={},{};{}",
                    alnum(r, 0, 5),
                    alnum(r, 1, 3),
                    alnum(r, 1, 3),
                    alnum(r, 0, 3)
                ));
            }
            if r.chance(1, 4) {
                s.push_str(&format!("#{}", alnum(r, 0, 6)));
            }
            s
        }
        4 => format!("mailto:{}@{}.com", lower(r, 1, 9), lower(r, 1, 9)),
        5 => format!(
            "tel:+{}-{};ext={}",
            r.range(1, 999),
            r.range(100, 9999999),
            r.range(0, 999)
        ),
        6 => format!("tel:{}", r.range(1, 99999999)),
        7 => format!(
            "urn:uuid:{:08x}-{:04x}-4{:03x}-8{:03x}-{:012x}",
            r.next() as u32,
            r.next() as u16,
            r.next() & 0xfff,
            r.next() & 0xfff,
            r.next() & 0xffff_ffff_ffff
        ),
        8 => format!(
            "geo:{}.{},-{}.{}",
            r.range(0, 90),
            r.range(0, 99999),
            r.range(0, 179),
            r.range(0, 99999)
        ),
        9 => format!("geo:{},{};u={}", r.range(0, 90), r.range(0, 180), 3),
        10 => format!(
            "data:image/{};base64,{}",
            r.pick(&["jpeg", "png"]),
            b64(&bytes(r, 60))
        ),
        11 => format!(
            "xmpp:{}@{}.com/{}",
            lower(r, 1, 5),
            lower(r, 1, 5),
            lower(r, 1, 5)
        ),
        12 => format!(
            "sip:{}:{}@h.org;x={}",
            lower(r, 1, 5),
            alnum(r, 0, 4),
            alnum(r, 1, 2)
        ),
        13 => format!("file:///{}{}", alnum(r, 1, 5), tail(r)),
        14 => format!(
            "http://[2001:db8::{:x}]/{}",
            r.range(1, 65535),
            alnum(r, 0, 4)
        ),
        _ => {
            let n = if r.chance(1, 6) { 300 } else { 30 };
            format!("{}:{}", lower(r, 1, 6), alnum(r, 1, n))
        }
    }
}

pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n).map(|_| r.next() as u8).collect()
}

/// Reference base64 encoder.
pub fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

pub fn days_in_month(y: i32, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 30,
    }
}

pub fn date(r: &mut Rng) -> MDate {
    let y = match r.below(8) {
        0 => *r.of(&[0, 1, 4, 99, 100, 400, 999, 1000, 9999, 2000, 1900]),
        1..=4 => r.range(1890, 2040) as i32,
        _ => r.range(0, 9999) as i32,
    };
    let m = r.range(1, 12) as u8;
    let n = days_in_month(y, m) as i64;
    let d = match r.below(5) {
        0 => 1,
        1 => n,
        _ => r.range(1, n),
    } as u8;
    MDate { y, m, d }
}

pub fn offset(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 | 1 => 0,
        2 => *r.of(&[-1, 1, -30, -59, 59, 1439, -1439, -60, 60]) * 60,
        3 => r.range(-23, 23) as i32 * 3600,
        _ => r.range(-1439, 1439) as i32 * 60,
    }
}

/// Whole-second time with an offset.
pub fn time(r: &mut Rng) -> MTime {
    let mut t = MTime {
        h: r.range(0, 23) as u8,
        m: r.range(0, 59) as u8,
        s: r.range(0, 59) as u8,
        ns: 0,
        off: offset(r),
    };
    match r.below(8) {
        0 => (t.h, t.m, t.s) = (0, 0, 0),
        1 => (t.h, t.m, t.s) = (23, 59, 59),
        2 => t.s = 0,
        3 => (t.m, t.s) = (0, 0),
        _ => {}
    }
    t
}

pub fn dt(r: &mut Rng) -> MDt {
    match r.below(3) {
        0 => MDt::D(date(r)),
        1 => MDt::DT(date(r), time(r)),
        _ => MDt::T(time(r)),
    }
}

pub fn list<T>(r: &mut Rng, max: i64, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(1, 30) {
        r.range(1, max * 8)
    } else {
        r.range(1, max)
    };
    (0..n).map(|_| f(r)).collect()
}

pub const LANGS: [&str; 12] = [
    "en",
    "fr",
    "de",
    "en-US",
    "fr-CA",
    "zh-Hant-TW",
    "de-1996",
    "es-419",
    "sr-Latn-RS",
    "x-private",
    "ja",
    "pt-BR",
];

/// A language tag in canonical case.
pub fn lang(r: &mut Rng) -> String {
    r.pick(&LANGS).to_string()
}

pub const MIMES: [&str; 9] = [
    "text/plain",
    "image/jpeg",
    "image/png",
    "application/pgp-keys",
    "text/plain;charset=utf-8",
    "application/vnd.ms-excel",
    "text/html;level=1;x=y",
    "audio/basic",
    "application/atom+xml",
];

pub fn mime(r: &mut Rng) -> String {
    r.pick(&MIMES).to_string()
}

pub fn float(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(8) {
            0 => *r.of(&[
                0.0,
                -0.0,
                1.0,
                -1.0,
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                5e-324,
                0.1,
                1e21,
                1e-7,
                123456789.125,
                -1e300,
                9007199254740993.0,
            ]),
            1 | 2 => r.range(-1000000, 1000000) as f64 / 1000.0,
            3 => r.range(-100, 100) as f64,
            _ => f64::from_bits(r.next()),
        };
        if f.is_finite() {
            return f;
        }
    }
}

pub fn int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => *r.of(&[
            0,
            1,
            -1,
            i64::MAX,
            i64::MIN,
            i64::MAX - 1,
            i32::MAX as i64 + 1,
            10,
            -10,
            255,
            256,
        ]),
        1 | 2 => r.range(-1000, 1000),
        3 => r.range(0, 9) * 10i64.pow(r.below(18) as u32),
        _ => r.next() as i64,
    }
}

pub fn uint(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.of(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 32, 255, 256, 10]),
        1 | 2 => r.range(1, 300) as u64,
        _ => r.next(),
    }
}

pub fn group(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        r.pick(&[
            "item1", "TZ", "GEO", "X-A", "END", "BEGIN", "N", "x-b", "0", "-", "a-b", "VERSION",
            "FN", "TYPE", "Item2", "GROUP", "iOS", "vcard", "t", "T", "TEL", "g--1", "kEy",
            "SOURCE-X", "geo",
        ])
        .to_string()
    } else {
        alnum(r, 1, 10)
    }
}

pub fn xname(r: &mut Rng) -> String {
    let p = if r.chance(3, 4) { "X-" } else { "x-" };
    if r.chance(1, 4) {
        format!(
            "{p}{}",
            r.pick(&[
                "ABC",
                "TZ",
                "GEO",
                "FN",
                "TYPE",
                "a-b",
                "-",
                "0",
                "END",
                "SOCIALPROFILE",
                "abLabel",
                "VALUE",
                "X-X",
                "ABADR",
                "Phonetic-First-Name",
            ])
        )
    } else {
        format!("{p}{}", alnum(r, 1, 12))
    }
}

// ----------------------------------------------------------- parameters

pub const TYPE_ALLOWED: [&str; 23] = [
    "FN",
    "NICKNAME",
    "PHOTO",
    "ADR",
    "TEL",
    "EMAIL",
    "IMPP",
    "LANG",
    "TZ",
    "GEO",
    "TITLE",
    "ROLE",
    "LOGO",
    "ORG",
    "RELATED",
    "CATEGORIES",
    "NOTE",
    "SOUND",
    "URL",
    "KEY",
    "FBURL",
    "CALADRURI",
    "CALURI",
];

pub fn is_ext(name: &str) -> bool {
    name.len() > 2 && name[..2].eq_ignore_ascii_case("x-")
}

pub fn type_allowed(name: &str) -> bool {
    TYPE_ALLOWED.contains(&name) || is_ext(name)
}

pub fn mtype(r: &mut Rng) -> MType {
    match r.below(8) {
        0 | 1 => MType::Home,
        2 => MType::Work,
        3 | 4 => MType::Tel(r.pick(&TELS)),
        5 => MType::Rel(r.pick(&RELS)),
        6 => MType::Ext(
            r.pick(&[
                "pref", "INTERNET", "JPEG", "main", "x-y", "home", "cell", "HOME", "dom", "",
                "iPhone",
            ])
            .to_string(),
        ),
        _ => MType::Ext(ptext(r)),
    }
}

/// Text of a TZ parameter: must not read as a URI.
pub fn tz_text(r: &mut Rng) -> String {
    let s = match r.below(4) {
        0 => r
            .pick(&[
                "America/New_York",
                "Raleigh/North America",
                "UTC",
                "-0500",
                "+0100",
                "Z",
                "+01",
            ])
            .to_string(),
        _ => ptext(r),
    };
    if has_scheme(&s) {
        format!("1{s}")
    } else {
        s
    }
}

/// Random parameter set for a property; `value` is the declared type.
pub fn params(
    r: &mut Rng,
    name: &str,
    value: Option<&'static str>,
    density: usize,
) -> Option<MParams> {
    let mut p = MParams {
        value,
        ..Default::default()
    };
    let on = |r: &mut Rng| r.chance(density, 100);
    if on(r) {
        p.language = Some(free_lang(r));
    }
    if on(r) {
        p.pref = Some(match r.below(4) {
            0 => 1,
            1 => 100,
            _ => r.range(1, 100) as u8,
        });
    }
    if on(r) {
        p.alt_id = Some(ptext(r));
    }
    if on(r) && name != "CLIENTPIDMAP" {
        p.pid = Some(list(r, 3, |r| {
            (uint(r), if r.bool() { Some(uint(r)) } else { None })
        }));
    }
    if on(r) && type_allowed(name) {
        p.types = Some(list(r, 3, mtype));
    }
    if on(r) {
        p.media_type = Some(free_mime(r));
    }
    if on(r) {
        p.calscale = Some(if r.bool() {
            "gregorian".to_string()
        } else {
            ptext(r)
        });
    }
    if on(r) {
        p.sort_as = Some(list(r, 3, ptext));
    }
    if on(r) {
        p.geo = Some(uri(r));
    }
    if on(r) {
        p.tz = Some(match r.below(3) {
            0 => MTz::Text(tz_text(r)),
            1 => MTz::Uri(uri(r)),
            _ => MTz::Off(offset(r)),
        });
    }
    if on(r) && name == "ADR" {
        p.label = Some(ptext(r));
    }
    if on(r) {
        p.ext = Some(list(r, 2, |r| {
            let n = if r.chance(1, 6) {
                r.pick(&["ENCODING", "encoding", "Encoding"]).to_string()
            } else {
                xname(r)
            };
            (n, list(r, 3, ptext))
        }));
    }
    if p == MParams::default() {
        None
    } else {
        Some(p)
    }
}

#[cfg(feature = "language-tags")]
pub fn free_lang(r: &mut Rng) -> String {
    lang(r)
}
#[cfg(not(feature = "language-tags"))]
pub fn free_lang(r: &mut Rng) -> String {
    if !canonical_only() && r.chance(1, 4) {
        ptext(r)
    } else {
        lang(r)
    }
}
#[cfg(feature = "mime")]
pub fn free_mime(r: &mut Rng) -> String {
    mime(r)
}
#[cfg(not(feature = "mime"))]
pub fn free_mime(r: &mut Rng) -> String {
    if !canonical_only() && r.chance(1, 4) {
        ptext(r)
    } else {
        mime(r)
    }
}

thread_local! {
    static CANON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Only syntactically valid language tags and media types (needed to
/// compare builds with different features).
pub fn set_canonical_only(on: bool) {
    CANON.with(|c| c.set(on));
}
fn canonical_only() -> bool {
    CANON.with(|c| c.get())
}

// ----------------------------------------------------------- properties

pub const SINGLE: [&str; 8] = [
    "KIND",
    "N",
    "BDAY",
    "ANNIVERSARY",
    "GENDER",
    "PRODID",
    "REV",
    "UID",
];

pub const TEXT_PROPS: [&str; 8] = [
    "XML", "FN", "NICKNAME", "EMAIL", "TITLE", "ROLE", "NOTE", "PRODID",
];
pub const URI_PROPS: [&str; 10] = [
    "SOURCE",
    "IMPP",
    "LOGO",
    "MEMBER",
    "GEO",
    "SOUND",
    "URL",
    "FBURL",
    "CALADRURI",
    "CALURI",
];
pub const TEXT_URI_PROPS: [&str; 4] = ["TEL", "RELATED", "UID", "KEY"];

/// Declared value type and value of a typed extension.
pub fn ext_value(r: &mut Rng, ty: Option<&'static str>) -> MVal {
    match ty {
        None | Some("text") => MVal::Text(text(r)),
        Some("uri") => MVal::Uri(uri(r)),
        Some("date") => MVal::Date(list(r, 3, date)),
        Some("time") => MVal::Time(list(r, 3, time)),
        Some("date-time") => MVal::DateTime(list(r, 3, |r| (date(r), time(r)))),
        Some("date-and-or-time") => MVal::Dt(list(r, 3, dt)),
        Some("timestamp") => MVal::Timestamp(list(r, 3, |r| (date(r), time(r)))),
        Some("boolean") => MVal::Bool(r.bool()),
        Some("integer") => MVal::Int(list(r, 4, int)),
        Some("float") => MVal::Float(list(r, 4, |r| float(r).to_bits())),
        Some("utc-offset") => MVal::Off(offset(r)),
        Some("language-tag") => MVal::Lang(lang_value(r)),
        _ => unreachable!(),
    }
}

#[cfg(feature = "language-tags")]
pub fn lang_value(r: &mut Rng) -> String {
    lang(r)
}
#[cfg(not(feature = "language-tags"))]
pub fn lang_value(r: &mut Rng) -> String {
    if !canonical_only() && r.chance(1, 5) {
        text(r)
    } else {
        lang(r)
    }
}

/// A declared VALUE type (None most of the time).
fn declared(r: &mut Rng, kind: &'static str) -> Option<&'static str> {
    if r.chance(1, 6) {
        Some(kind)
    } else {
        None
    }
}

pub fn prop(r: &mut Rng, name: &str, density: usize) -> MProp {
    let (value, val): (Option<&'static str>, MVal) = match name {
        n if is_ext(n) => {
            let ty = if r.chance(1, 4) {
                None
            } else {
                Some(r.pick(&VALUES))
            };
            (ty, ext_value(r, ty))
        }
        n if TEXT_PROPS.contains(&n) => (declared(r, "text"), MVal::Text(text(r))),
        n if URI_PROPS.contains(&n) => (declared(r, "uri"), MVal::Uri(uri(r))),
        n if TEXT_URI_PROPS.contains(&n) => match r.below(5) {
            0 => (Some("text"), MVal::Text(text(r))),
            1 => (Some("text"), MVal::Text(uri(r))),
            2 => (None, MVal::Text(text_not_uri(r))),
            3 => (Some("uri"), MVal::Uri(uri(r))),
            _ => (None, MVal::Uri(uri(r))),
        },
        "PHOTO" => match r.below(5) {
            0 => (None, MVal::Text(text_not_uri(r))),
            1 => (Some("text"), MVal::Text(text(r))),
            2 => (None, MVal::Text(b64(&bytes(r, 120)))),
            3 => (Some("uri"), MVal::Uri(uri(r))),
            _ => (None, MVal::Uri(uri(r))),
        },
        "BDAY" | "ANNIVERSARY" => match r.below(5) {
            0 => (Some("text"), MVal::Text(text(r))),
            1 => (Some("date-and-or-time"), MVal::Dt(list(r, 3, dt))),
            2 => (None, MVal::Dt(list(r, 3, dt))),
            _ => (None, MVal::Dt(vec![dt(r)])),
        },
        "N" => (
            declared(r, "text"),
            MVal::List(if r.bool() {
                (0..5).map(|_| text(r)).collect()
            } else {
                list(r, 6, text)
            }),
        ),
        "ORG" | "CATEGORIES" => (declared(r, "text"), MVal::List(list(r, 5, text))),
        "GENDER" => (
            declared(r, "text"),
            MVal::Gender(r.pick(&SEXES), if r.bool() { Some(text(r)) } else { None }),
        ),
        "ADR" => {
            let mut a: [Option<String>; 7] = Default::default();
            for c in a.iter_mut() {
                if r.chance(2, 3) {
                    *c = Some(nonempty_text(r));
                }
            }
            (declared(r, "text"), MVal::Adr(a))
        }
        "KIND" => (declared(r, "text"), MVal::Kind(r.pick(&KINDS))),
        "LANG" => (declared(r, "language-tag"), MVal::Lang(lang_value(r))),
        "TZ" => match r.below(4) {
            0 => (Some("text"), MVal::Text(text(r))),
            1 => (Some("uri"), MVal::Uri(uri(r))),
            2 => (Some("utc-offset"), MVal::Off(offset(r))),
            _ => (None, MVal::Text(text(r))),
        },
        "REV" => (declared(r, "timestamp"), MVal::Rev(date(r), time(r))),
        "CLIENTPIDMAP" => (None, MVal::PidMap(uint(r).max(1), uri(r))),
        _ => unreachable!("{name}"),
    };
    let params = params(r, name, value, density);
    let group = if r.chance(1, 5) { Some(group(r)) } else { None };
    MProp {
        name: name.to_string(),
        group,
        params,
        val,
    }
}

/// A property of any kind except KIND and MEMBER.
pub fn any_prop(r: &mut Rng, density: usize) -> MProp {
    loop {
        let i = r.below(FIELDS.len() + 5);
        if i >= FIELDS.len() {
            let n = xname(r);
            return prop(r, &n, density);
        }
        let n = FIELDS[i];
        if n != "KIND" && n != "MEMBER" {
            return prop(r, n, density);
        }
    }
}

/// Keep the first of each single property and make the card valid.
pub fn make_valid(r: &mut Rng, card: MCard) -> MCard {
    let mut seen: Vec<String> = Vec::new();
    let mut out = Vec::new();
    for p in card {
        if SINGLE.contains(&&p.name[..]) {
            if seen.contains(&p.name) {
                continue;
            }
            seen.push(p.name.clone());
        }
        out.push(p);
    }
    if !out.iter().any(|p| p.name == "FN") {
        let p = prop(r, "FN", 10);
        let i = r.below(out.len() + 1);
        out.insert(i, p);
    }
    out
}

/// A valid card: lines in any order.
pub fn card(r: &mut Rng) -> MCard {
    let density = *r.of(&[0, 3, 10, 10, 40]);
    let mut c = Vec::new();
    match r.below(20) {
        0 => {
            // every property once, random order
            for n in FIELDS {
                if n != "KIND" && n != "MEMBER" {
                    c.push(prop(r, n, density));
                }
            }
            for _ in 0..3 {
                let n = xname(r);
                c.push(prop(r, &n, density));
            }
            r.shuffle(&mut c);
        }
        1 => {
            // the same property many times
            let p = any_prop(r, 0);
            for _ in 0..r.range(2, 12) {
                c.push(prop(r, &p.name, density));
            }
        }
        _ => {
            for _ in 0..r.range(1, 9) {
                c.push(any_prop(r, density));
            }
        }
    }
    if r.chance(1, 4) {
        let mut k = prop(r, "KIND", density);
        if r.bool() {
            k.val = MVal::Kind("group");
            for _ in 0..r.below(4) {
                let i = r.below(c.len() + 1);
                let m = prop(r, "MEMBER", density);
                c.insert(i, m);
            }
        }
        let i = r.below(c.len() + 1);
        c.insert(i, k);
    }
    make_valid(r, c)
}

pub fn cards(r: &mut Rng) -> Vec<MCard> {
    let n = match r.below(10) {
        0..=6 => 1,
        7 | 8 => 2,
        _ => r.range(3, 6),
    };
    (0..n).map(|_| card(r)).collect()
}
