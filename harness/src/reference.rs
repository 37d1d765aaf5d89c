//! Independent reading of any text whatsoever.
//!
//! What the documentation and RFC 6350 settle about a text is worked out
//! here without the library: which cards it holds with which contents, or
//! which errors may be reported for it.  What they leave open stays open:
//! nothing is claimed about it.

use crate::gen;
use crate::model::*;
use crate::reader::{split, unescape};
use crate::uri;
use std::collections::BTreeSet;

pub type Errs = BTreeSet<&'static str>;

/// An error of any kind.
pub const ANY: &str = "*";

pub const TIMES: &[&str] = &[
    "TimeParse",
    "InvalidDate",
    "InvalidTime",
    "InvalidDateTime",
    "ComponentRange",
];

const HEAD: &[&str] = &[
    "IncorrectToken",
    "DelimiterExpected",
    "TokenExpected",
    "UnknownPropertyName",
];

const PARAM: &[&str] = &[
    "IncorrectToken",
    "DelimiterExpected",
    "TokenExpected",
    "UnknownParameter",
];

/// What is known about the card at a position of the text.
#[derive(Default, Debug)]
pub struct Outcome {
    /// The properties the card has if it is accepted.
    pub card: MCard,
    /// Properties of these names are not settled.
    pub open: BTreeSet<String>,
    /// It must be refused with one of these errors.
    pub fails: Option<Errs>,
    /// It may be refused.
    pub may_fail: bool,
    /// Position following the card if it has an end.
    pub end: Option<usize>,
    pub good: u64,
    pub bad: u64,
}

/// The text with folded lines joined.
pub fn unfold(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    let blank = |c: Option<&char>| matches!(c, Some(' ' | '\t'));
    while i < b.len() {
        if b[i] == '\n' && blank(b.get(i + 1)) {
            i += 2;
        } else if b[i] == '\r' && b.get(i + 1) == Some(&'\n') && blank(b.get(i + 2)) {
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Position of the next card, skipping blank lines.
pub fn begin(text: &str, mut pos: usize) -> Option<usize> {
    loop {
        let rest = &text[pos..];
        if rest.starts_with('\n') {
            pos += 1;
        } else if rest.starts_with("\r\n") {
            pos += 2;
        } else {
            return (!rest.is_empty()).then_some(pos);
        }
    }
}

fn starts(s: &str, word: &str) -> bool {
    s.get(..word.len())
        .is_some_and(|w| w.eq_ignore_ascii_case(word))
}

/// Position of the card to go on with after the card at `pos` was refused.
pub fn resync(text: &str, pos: usize) -> usize {
    let mut at = pos;
    for l in text[pos..].split_inclusive('\n') {
        if at > pos && starts(l, "BEGIN:VCARD") {
            return at;
        }
        at += l.len();
    }
    text.len()
}

/// Line at a position without its ending, whether it is ended, and the
/// position of the next line.
fn line_at(text: &str, pos: usize) -> (&str, bool, usize) {
    match text[pos..].find('\n') {
        Some(n) => {
            let l = &text[pos..pos + n];
            (l.strip_suffix('\r').unwrap_or(l), true, pos + n + 1)
        }
        None => (&text[pos..], false, text.len()),
    }
}

fn set(l: &[&'static str]) -> Errs {
    l.iter().copied().collect()
}

/// Judge the card at `pos`, which is not blank.
pub fn card(text: &str, pos: usize, strict: bool) -> Outcome {
    let mut o = Outcome::default();
    let envelope = set(&[
        "IncorrectToken",
        "TokenExpected",
        "LexError",
        "ControlCharacter",
    ]);
    let (l, ended, next) = line_at(text, pos);
    if !l.eq_ignore_ascii_case("BEGIN:VCARD") || !ended {
        o.fails = Some(envelope);
        return o;
    }
    let (l, ended, mut at) = line_at(text, next);
    if !ended || !(l.eq_ignore_ascii_case("VERSION:4.0") || l.eq_ignore_ascii_case("VERSION:3.0")) {
        let mut e = envelope;
        if !l.is_empty() {
            // other versions and other properties may have errors of their own
            e.extend(["VersionMisplaced", "UnknownPropertyName"]);
        }
        o.fails = Some(e);
        return o;
    }
    loop {
        if at == text.len() {
            let e = set(&["TokenExpected"]);
            o.fails = Some(if o.may_fail { set(&[ANY]) } else { e });
            return o;
        }
        let (l, ended, next) = line_at(text, at);
        if starts(l, "END:VCARD") {
            let end = at + "END:VCARD".len();
            o.end = Some(end);
            validate(&mut o);
            return o;
        }
        if starts(l, "BEGIN:VCARD") {
            let e = set(&["IncorrectToken", "TokenExpected"]);
            o.fails = Some(if o.may_fail { set(&[ANY]) } else { e });
            return o;
        }
        let (name, mut j) = line(l, strict);
        if let Some(n) = &name {
            if gen::SINGLE.contains(&&n[..]) {
                if o.card.iter().any(|p| p.name == *n) {
                    match &mut j {
                        J::Bad(e) => {
                            e.insert("OnlyOnce");
                        }
                        J::Open => j = J::Bad(set(&[ANY])),
                        J::Good(_) => j = J::Bad(set(&["OnlyOnce"])),
                    }
                } else if o.open.contains(n) {
                    match &mut j {
                        J::Bad(e) => {
                            e.insert("OnlyOnce");
                        }
                        _ => j = J::Open,
                    }
                }
            }
        }
        if !ended {
            let mut e = set(&["InvalidPropertyValue", "TokenExpected", "DelimiterExpected"]);
            match j {
                J::Bad(b) => e.extend(b),
                J::Open => {
                    e.insert(ANY);
                }
                J::Good(_) => {}
            }
            j = J::Bad(e);
        }
        match j {
            J::Good(p) => {
                o.good += 1;
                o.card.push(*p);
            }
            J::Open => {
                o.may_fail |= strict;
                o.open.insert(name.unwrap_or_default());
            }
            J::Bad(e) => {
                o.bad += 1;
                if strict {
                    o.fails = Some(if o.may_fail { set(&[ANY]) } else { e });
                    return o;
                }
            }
        }
        at = next;
    }
}

fn validate(o: &mut Outcome) {
    let has = |n: &str| o.card.iter().any(|p| p.name == n);
    let mut e = Errs::new();
    let mut unsure = false;
    if !has("FN") {
        if o.open.contains("FN") {
            unsure = true;
        } else {
            e.insert("NoFormattedName");
        }
    }
    let group = o
        .card
        .iter()
        .any(|p| p.name == "KIND" && p.val == MVal::Kind("group"));
    if !group {
        if has("MEMBER") && !o.open.contains("KIND") {
            e.insert("MemberRequiresGroup");
        } else if has("MEMBER") || o.open.contains("MEMBER") {
            unsure = true;
        }
    }
    if e.is_empty() {
        o.may_fail |= unsure;
    } else {
        if unsure || o.may_fail {
            e.insert(ANY);
        }
        o.fails = Some(e);
    }
}

enum J {
    Good(Box<MProp>),
    Bad(Errs),
    Open,
}

#[derive(Default)]
struct Acc {
    errs: Errs,
    open: bool,
}

impl Acc {
    fn bad(&mut self, l: &[&'static str]) {
        self.errs.extend(l);
    }
    fn judge(mut self) -> J {
        if self.errs.is_empty() {
            return J::Open;
        }
        if self.open {
            self.errs.insert(ANY);
        }
        J::Bad(self.errs)
    }
}

/// Text with its escapes undone; open for escapes that mean nothing.
fn plain(a: &mut Acc, s: &str) -> String {
    unescape(s, "").unwrap_or_else(|_| {
        a.open = true;
        String::new()
    })
}

/// A language tag; which ones are refused by builds that look into them is
/// not judged.
fn tag(a: &mut Acc, s: &str) -> String {
    let v = plain(a, s);
    if cfg!(feature = "language-tags") && !gen::LANGS.contains(&&v[..]) {
        a.open = true;
    }
    v
}

/// A media type, likewise.
fn media(a: &mut Acc, s: &str) -> String {
    let v = plain(a, s);
    if cfg!(feature = "mime") && !gen::MIMES.contains(&&v[..]) {
        a.open = true;
    }
    v
}

fn as_uri(a: &mut Acc, s: &str) -> Option<String> {
    if uri::huge_port(s) {
        a.open = true;
        return None;
    }
    uri::valid(s).then(|| uri::canonical(s))
}

/// One logical line: the name of the property it has, and its meaning.
fn line(l: &str, strict: bool) -> (Option<String>, J) {
    let mut a = Acc::default();
    let n = l
        .find(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '.'))
        .unwrap_or(l.len());
    let head = &l[..n];
    let rest = &l[n..];
    let (group, name) = match head.split_once('.') {
        Some((g, n)) => (Some(g.to_string()), n),
        None => (None, head),
    };
    let upper = name.to_ascii_uppercase();
    let ext = upper.starts_with("X-");
    let known = FIELDS.contains(&&upper[..])
        || upper == "VERSION"
        || (ext && name.len() > 2 && !name.contains('.'));
    let known = known && group.as_deref() != Some("");
    if !known || !rest.starts_with([':', ';']) {
        a.bad(HEAD);
        a.bad(&["LexError", "ControlCharacter", "VersionMisplaced"]);
        if !rest.starts_with(';') {
            return (None, a.judge());
        }
    }
    if upper == "VERSION" {
        a.bad(&["VersionMisplaced"]);
        if !(rest.starts_with(";") || starts(rest, ":3.0") || starts(rest, ":4.0")) {
            a.bad(HEAD);
        }
    }
    // parameters
    let mut p = MParams::default();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut cur = rest;
    while let Some(r) = cur.strip_prefix(';') {
        let n = r
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
            .unwrap_or(r.len());
        let key = &r[..n];
        let ukey = key.to_ascii_uppercase();
        let ok = KEYS.contains(&&ukey[..]) || (ukey.starts_with("X-") && key.len() > 2);
        let Some(v) = r[n..].strip_prefix('=').filter(|_| ok) else {
            a.bad(PARAM);
            a.bad(&["LexError", "ControlCharacter"]);
            return (known.then_some(upper), a.judge());
        };
        let (raw, quoted, after) = match param_value(v) {
            Ok(x) => x,
            Err(e) => {
                a.bad(&[e]);
                return (known.then_some(upper), a.judge());
            }
        };
        if !matches!(&ukey[..], "TYPE" | "ENCODING" | "CHARSET")
            && !ukey.starts_with("X-")
            && !seen.insert(ukey.clone())
        {
            a.open = true;
        }
        param(&mut a, &mut p, &upper, key, &ukey, raw, quoted, strict);
        cur = after;
        if !cur.starts_with([':', ';']) {
            a.bad(&["DelimiterExpected"]);
            return (known.then_some(upper), a.judge());
        }
    }
    let raw = &cur[1..];
    if raw.chars().any(|c| c.is_ascii_control() && c != '\t') {
        a.bad(&["ControlCharacter"]);
        return (known.then_some(upper), a.judge());
    }
    if !known {
        return (None, a.judge());
    }
    let val = value(&mut a, &upper, ext, &p, raw);
    if upper == "VERSION" {
        return (known.then_some(upper), a.judge());
    }
    match val {
        Some(val) if a.errs.is_empty() && !a.open => {
            let prop = MProp {
                name: if ext { name.to_string() } else { upper.clone() },
                group,
                params: (p != MParams::default()).then_some(p),
                val,
            };
            (
                Some(if ext { name.to_string() } else { upper }),
                J::Good(Box::new(prop)),
            )
        }
        _ => (Some(if ext { name.to_string() } else { upper }), a.judge()),
    }
}

const KEYS: [&str; 14] = [
    "LANGUAGE",
    "VALUE",
    "PREF",
    "ALTID",
    "PID",
    "TYPE",
    "MEDIATYPE",
    "CALSCALE",
    "SORT-AS",
    "CHARSET",
    "LABEL",
    "ENCODING",
    "TZ",
    "GEO",
];

/// Raw value of a parameter, whether it is quoted, and what follows.
fn param_value(v: &str) -> Result<(&str, bool, &str), &'static str> {
    let quoted = v.starts_with('"');
    let body = if quoted { &v[1..] } else { v };
    let mut escaped = false;
    for (i, c) in body.char_indices() {
        if c.is_ascii_control() && c != '\t' {
            return Err("ControlCharacter");
        }
        if quoted {
            if c == '"' {
                return Ok((&body[..i], true, &body[i + 1..]));
            }
            continue;
        }
        match c {
            '"' => return Err("DelimiterExpected"),
            ':' => return Ok((&body[..i], false, &body[i..])),
            ';' if !escaped => return Ok((&body[..i], false, &body[i..])),
            _ => {}
        }
        escaped = c == '\\' && !escaped;
    }
    Err("DelimiterExpected")
}

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

#[allow(clippy::too_many_arguments)]
fn param(
    a: &mut Acc,
    p: &mut MParams,
    name: &str,
    key: &str,
    ukey: &str,
    raw: &str,
    quoted: bool,
    strict: bool,
) {
    let list =
        |a: &mut Acc| -> Vec<String> { split(raw, ',').iter().map(|s| plain(a, s)).collect() };
    match ukey {
        "LANGUAGE" => p.language = Some(tag(a, raw)),
        "ALTID" => p.alt_id = Some(plain(a, raw)),
        "CALSCALE" => p.calscale = Some(plain(a, raw)),
        "MEDIATYPE" => p.media_type = Some(media(a, raw)),
        "LABEL" => {
            if name != "ADR" {
                a.bad(&["InvalidLabel"]);
            }
            p.label = Some(plain(a, raw));
        }
        "SORT-AS" => p.sort_as = Some(list(a)),
        "VALUE" => match VALUES.iter().find(|v| v.eq_ignore_ascii_case(raw)) {
            Some(v) => p.value = Some(v),
            None if !raw.is_ascii() => a.open = true,
            None if strict => a.bad(&["UnknownValueType"]),
            None => {}
        },
        "PREF" => {
            if digits(raw) {
                match raw.parse::<u64>() {
                    Ok(n @ 1..=100) => p.pref = Some(n as u8),
                    Ok(0 | 101..=255) => a.bad(&["PrefOutOfRange"]),
                    _ => a.bad(&["ParseInt", "PrefOutOfRange"]),
                }
            } else if raw.contains(['+', '\\']) {
                a.open = true;
            } else {
                a.bad(&["ParseInt"]);
            }
        }
        "PID" => {
            let mut l = Vec::new();
            for item in raw.split(',') {
                let (x, y) = match item.split_once('.') {
                    Some((x, y)) => (x, Some(y)),
                    None => (item, None),
                };
                if item.contains(['+', '\\']) {
                    a.open = true;
                    continue;
                }
                let num = |s: &str| {
                    if digits(s) {
                        s.parse::<u64>().ok()
                    } else {
                        None
                    }
                };
                match (num(x), y.map(num)) {
                    (Some(x), None) => l.push((x, None)),
                    (Some(x), Some(Some(y))) => l.push((x, Some(y))),
                    _ => a.bad(&["InvalidPid"]),
                }
            }
            p.pid = Some(l);
        }
        "TYPE" => {
            if !gen::type_allowed(name) && !name.starts_with("X-") {
                a.bad(&["TypeParameter"]);
            }
            let l = list(a);
            for s in &l {
                if !s.is_ascii() {
                    a.open = true;
                }
                p.types
                    .get_or_insert_with(Vec::new)
                    .push(crate::reader::r_type(s));
            }
        }
        "GEO" => {
            if !quoted {
                a.bad(&["NotQuoted"]);
            }
            let s = plain(a, raw);
            match as_uri(a, &s) {
                Some(u) => p.geo = Some(u),
                None if a.open => {}
                None => a.bad(&["UriParse"]),
            }
        }
        "TZ" => {
            let s = plain(a, raw);
            p.tz = Some(if quoted {
                match as_uri(a, &s) {
                    Some(u) => MTz::Uri(u),
                    None => MTz::Text(s),
                }
            } else if s.starts_with(['+', '-']) || s == "Z" {
                match zone(&s) {
                    Some(o) => MTz::Off(o),
                    None => {
                        a.open = true;
                        MTz::Text(s)
                    }
                }
            } else {
                MTz::Text(s)
            });
        }
        "CHARSET" => {
            if raw != "UTF-8" {
                if raw.eq_ignore_ascii_case("UTF-8") || raw.contains('\\') {
                    a.open = true;
                } else {
                    a.bad(&["CharsetParameter"]);
                }
            }
        }
        _ => {
            let l = list(a);
            p.ext
                .get_or_insert_with(Vec::new)
                .push((key.to_string(), l));
        }
    }
}

fn zone(s: &str) -> Option<i32> {
    if s == "Z" {
        return Some(0);
    }
    let sign = match s.get(..1)? {
        "+" => 1,
        "-" => -1,
        _ => return None,
    };
    let d = &s[1..];
    if !digits(d) || !(d.len() == 2 || d.len() == 4) {
        return None;
    }
    let h: i32 = d[..2].parse().ok()?;
    let m: i32 = if d.len() == 4 {
        d[2..].parse().ok()?
    } else {
        0
    };
    (h < 24 && m < 60).then_some(sign * (h * 60 + m) * 60)
}

fn two(s: &str) -> u8 {
    s.parse().unwrap()
}

fn mkdate(y: &str, m: &str, d: &str) -> Option<MDate> {
    let x = MDate {
        y: y.parse().ok()?,
        m: two(m),
        d: two(d),
    };
    (x.m >= 1 && x.m <= 12 && x.d >= 1 && x.d <= gen::days_in_month(x.y, x.m)).then_some(x)
}

/// What is known about one date or time.
enum K<T> {
    Is(T),
    Never,
    Unknown,
}

/// Characters that are in no date or time at all.
fn foreign(s: &str) -> bool {
    s.chars().any(|c| {
        !(c.is_ascii_digit()
            || matches!(
                c,
                'T' | 'Z' | 'W' | 't' | 'z' | 'w' | ':' | '.' | '+' | '-' | ','
            ))
    })
}

fn known<T>(v: Option<T>) -> K<T> {
    match v {
        Some(t) => K::Is(t),
        None => K::Never,
    }
}

/// Shape of a text: digits as 9.
fn shape(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_ascii_digit() { '9' } else { c })
        .collect()
}

fn k_date(s: &str) -> K<MDate> {
    if foreign(s) || s.is_empty() {
        return K::Never;
    }
    match &shape(s)[..] {
        "99999999" => known(mkdate(&s[..4], &s[4..6], &s[6..])),
        "9999-99-99" => known(mkdate(&s[..4], &s[5..7], &s[8..])),
        "9999-99" => known(mkdate(&s[..4], &s[5..], "01")),
        "9999" => known(mkdate(s, "01", "01")),
        "--9999" => known(mkdate("0000", &s[2..4], &s[4..])),
        "--99" => known(mkdate("0000", &s[2..], "01")),
        "---99" => known(mkdate("0000", "01", &s[3..])),
        _ => K::Unknown,
    }
}

fn k_time(s: &str) -> K<MTime> {
    if foreign(s) || s.is_empty() {
        return K::Never;
    }
    let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    let (t, z) = s.split_at(n);
    if !matches!(n, 2 | 4 | 6) {
        return K::Unknown;
    }
    let off = match z {
        "" => Some(0),
        z if matches!(&shape(z)[..], "Z" | "+99" | "-99" | "+9999" | "-9999") => zone(z),
        _ => return K::Unknown,
    };
    let at = |i: usize| if t.len() > i { two(&t[i..i + 2]) } else { 0 };
    let (h, m, sec) = (at(0), at(2), at(4));
    if sec == 60 || h == 24 {
        return K::Unknown;
    }
    known(
        off.filter(|_| h < 24 && m < 60 && sec < 60)
            .map(|off| MTime {
                h,
                m,
                s: sec,
                ns: 0,
                off,
            }),
    )
}

fn k_date_time(s: &str) -> K<(MDate, MTime)> {
    if foreign(s) || s.is_empty() {
        return K::Never;
    }
    let Some((d, t)) = s.split_once('T') else {
        return K::Never;
    };
    match (k_date(d), k_time(t)) {
        (K::Is(d), K::Is(t)) => K::Is((d, t)),
        (K::Never, _) | (_, K::Never) => K::Never,
        _ => K::Unknown,
    }
}

/// REV and timestamps are complete.
fn k_timestamp(s: &str) -> K<(MDate, MTime)> {
    match k_date_time(s) {
        K::Is(v) if s.find('T') == Some(8) && s.len() >= 15 && digits(&s[9..15]) => K::Is(v),
        K::Never => K::Never,
        _ => K::Unknown,
    }
}

fn k_dt(s: &str) -> K<MDt> {
    if foreign(s) || s.is_empty() {
        return K::Never;
    }
    if let Some(t) = s.strip_prefix('T') {
        return match k_time(t) {
            K::Is(t) => K::Is(MDt::T(t)),
            K::Never => K::Never,
            K::Unknown => K::Unknown,
        };
    }
    if s.contains('T') {
        return match k_date_time(s) {
            K::Is((d, t)) => K::Is(MDt::DT(d, t)),
            K::Never if foreign(s) => K::Never,
            _ => K::Unknown,
        };
    }
    match k_date(s) {
        K::Is(d) => K::Is(MDt::D(d)),
        _ => K::Unknown,
    }
}

fn times<T>(a: &mut Acc, raw: &str, escaped: bool, f: impl Fn(&str) -> K<T>) -> Vec<T> {
    let mut out = Vec::new();
    if escaped {
        a.open = true;
        return out;
    }
    for s in raw.split(',') {
        match f(s) {
            K::Is(t) => out.push(t),
            K::Never => a.bad(TIMES),
            K::Unknown => a.open = true,
        }
    }
    out
}

fn single<T>(a: &mut Acc, raw: &str, f: impl Fn(&str) -> K<T>) -> Option<T> {
    match f(raw) {
        K::Is(t) => Some(t),
        K::Never => {
            a.bad(TIMES);
            None
        }
        K::Unknown => {
            a.open = true;
            None
        }
    }
}

fn uri_value(a: &mut Acc, raw: &str) -> Option<MVal> {
    let s = plain(a, raw);
    let u = as_uri(a, &s);
    if u.is_none() && !a.open {
        a.bad(&["UriParse"]);
    }
    u.map(MVal::Uri)
}

fn text_value(a: &mut Acc, raw: &str) -> Option<MVal> {
    Some(MVal::Text(plain(a, raw)))
}

fn offset_value(a: &mut Acc, raw: &str) -> Option<MVal> {
    match zone(raw) {
        Some(o) => Some(MVal::Off(o)),
        None if raw.starts_with(['+', '-']) && !foreign(raw) => {
            a.open = true;
            None
        }
        None if raw.contains('\\') => {
            a.open = true;
            None
        }
        None => {
            a.bad(TIMES);
            None
        }
    }
}

fn value(a: &mut Acc, name: &str, ext: bool, p: &MParams, raw: &str) -> Option<MVal> {
    let escaped = raw.contains('\\');
    if ext {
        return ext_value(a, p.value, raw, escaped);
    }
    if gen::URI_PROPS.contains(&name) {
        return uri_value(a, raw);
    }
    if gen::TEXT_PROPS.contains(&name) {
        return text_value(a, raw);
    }
    match name {
        "PRODID" => text_value(a, raw),
        "TEL" | "RELATED" | "UID" | "KEY" => match p.value {
            Some("text") => text_value(a, raw),
            Some("uri") => uri_value(a, raw),
            None => {
                let s = plain(a, raw);
                Some(match as_uri(a, &s) {
                    Some(u) => MVal::Uri(u),
                    None => MVal::Text(s),
                })
            }
            _ => {
                a.bad(&["UnknownValueType", "UnsupportedValueType"]);
                None
            }
        },
        "PHOTO" => match p.value {
            Some("text") => text_value(a, raw),
            None | Some("uri") => {
                let s = plain(a, raw);
                Some(match as_uri(a, &s) {
                    Some(u) => MVal::Uri(u),
                    None => MVal::Text(s),
                })
            }
            _ => {
                a.open = true;
                None
            }
        },
        "TZ" => match p.value {
            None | Some("text") => text_value(a, raw),
            Some("uri") => uri_value(a, raw),
            Some("utc-offset") => offset_value(a, raw),
            _ => {
                a.bad(&["UnknownValueType", "UnsupportedValueType"]);
                None
            }
        },
        "BDAY" | "ANNIVERSARY" => match p.value {
            Some("text") => text_value(a, raw),
            None | Some("date-and-or-time") => Some(MVal::Dt(times(a, raw, escaped, k_dt))),
            _ => {
                a.bad(&["UnknownValueType", "UnsupportedValueType"]);
                None
            }
        },
        "REV" => {
            if escaped {
                a.open = true;
                return None;
            }
            single(a, raw, k_timestamp).map(|(d, t)| MVal::Rev(d, t))
        }
        "N" | "ORG" => {
            let l = split(raw, ';').iter().map(|s| plain(a, s)).collect();
            Some(MVal::List(l))
        }
        "CATEGORIES" => {
            let l = split(raw, ',').iter().map(|s| plain(a, s)).collect();
            Some(MVal::List(l))
        }
        "KIND" => match KINDS.iter().find(|k| k.eq_ignore_ascii_case(raw)) {
            Some(k) if *k == raw => Some(MVal::Kind(k)),
            Some(_) => {
                a.open = true;
                None
            }
            None => {
                a.open |= escaped;
                a.bad(&["UnknownKind"]);
                None
            }
        },
        "GENDER" => {
            let parts = split(raw, ';');
            match SEXES.iter().find(|s| s.eq_ignore_ascii_case(&parts[0])) {
                Some(s) if *s == parts[0] => {
                    if parts.len() > 2 || parts.get(1).is_some_and(|s| s.is_empty()) {
                        a.open = true;
                        return None;
                    }
                    let i = parts.get(1).map(|i| plain(a, i));
                    Some(MVal::Gender(s, i))
                }
                Some(_) => {
                    a.open = true;
                    None
                }
                None => {
                    a.bad(&["UnknownSex", "NoSex"]);
                    None
                }
            }
        }
        "ADR" => {
            let parts = split(raw, ';');
            if parts.len() < 7 {
                a.bad(&["InvalidAddress"]);
                return None;
            }
            if parts.len() > 7 {
                a.open = true;
                return None;
            }
            let mut out: [Option<String>; 7] = Default::default();
            for (o, s) in out.iter_mut().zip(&parts) {
                *o = (!s.is_empty()).then(|| plain(a, s));
            }
            Some(MVal::Adr(out))
        }
        "LANG" => Some(MVal::Lang(tag(a, raw))),
        "CLIENTPIDMAP" => {
            if p.pid.is_some() {
                a.bad(&["ClientPidMapPidNotAllowed"]);
            }
            if escaped {
                a.open = true;
                return None;
            }
            let Some((n, u)) = raw.split_once(';') else {
                a.bad(&["InvalidClientPidMap", "ParseInt"]);
                return None;
            };
            let num = if digits(n) {
                n.parse::<u64>().ok()
            } else {
                None
            };
            if n.starts_with('+') {
                a.open = true;
                return None;
            }
            let good = match num {
                Some(0) => {
                    a.bad(&["InvalidClientPidMap"]);
                    false
                }
                None => {
                    a.bad(&["ParseInt", "InvalidClientPidMap"]);
                    false
                }
                _ => true,
            };
            let Some(u) = as_uri(a, u) else {
                if a.open {
                    return None;
                }
                a.bad(&["UriParse", "InvalidClientPidMap"]);
                return None;
            };
            good.then(|| MVal::PidMap(num.unwrap(), u))
        }
        "VERSION" => None,
        _ => unreachable!("{name}"),
    }
}

fn ext_value(a: &mut Acc, ty: Option<&'static str>, raw: &str, escaped: bool) -> Option<MVal> {
    match ty {
        None | Some("text") => return text_value(a, raw),
        Some("uri") => return uri_value(a, raw),
        Some("language-tag") => return Some(MVal::Lang(tag(a, raw))),
        _ => {}
    }
    if escaped {
        a.open = true;
        return None;
    }
    Some(match ty.unwrap() {
        "integer" => {
            let mut l = Vec::new();
            for s in raw.split(',') {
                let d = s.strip_prefix('-').unwrap_or(s);
                if s.starts_with('+') {
                    a.open = true;
                } else if let Some(n) = digits(d).then(|| s.parse::<i64>().ok()).flatten() {
                    l.push(n);
                } else {
                    a.bad(&["ParseInt"]);
                }
            }
            MVal::Int(l)
        }
        "float" => {
            let mut l = Vec::new();
            for s in raw.split(',') {
                let d = s.strip_prefix('-').unwrap_or(s);
                let (x, y) = d.split_once('.').unwrap_or((d, "0"));
                if digits(x) && digits(y) {
                    l.push(s.parse::<f64>().unwrap().to_bits());
                } else if s.is_empty()
                    || s.chars()
                        .any(|c| !(c.is_ascii_alphanumeric() || "+-.".contains(c)))
                {
                    a.bad(&["ParseFloat"]);
                } else {
                    a.open = true;
                }
            }
            MVal::Float(l)
        }
        "boolean" => {
            if raw.eq_ignore_ascii_case("true") {
                MVal::Bool(true)
            } else if raw.eq_ignore_ascii_case("false") {
                MVal::Bool(false)
            } else {
                a.open |= !raw.is_ascii();
                a.bad(&["InvalidBoolean"]);
                return None;
            }
        }
        "utc-offset" => return offset_value(a, raw),
        "date" => MVal::Date(times(a, raw, false, k_date)),
        "time" => MVal::Time(times(a, raw, false, k_time)),
        "date-time" => MVal::DateTime(times(a, raw, false, k_date_time)),
        "date-and-or-time" => MVal::Dt(times(a, raw, false, k_dt)),
        "timestamp" => MVal::Timestamp(times(a, raw, false, k_timestamp)),
        _ => unreachable!(),
    })
}
