//! Reference writer: turns model cards into vCard text, choosing at random
//! among all the spellings the format allows.

use crate::model::*;
use crate::rng::Rng;

/// Freedom the writer has.
#[derive(Clone, Copy)]
pub struct Style {
    /// Random letter case of keywords.
    pub case: bool,
    /// Random parameter order, repeated TYPE parameters, quoting.
    pub params: bool,
    /// Random choice of escapes.
    pub escapes: bool,
    /// Fold lines at random positions.
    pub folds: bool,
    /// Mix CRLF and LF.
    pub endings: bool,
    /// VERSION:3.0 sometimes.
    pub version: bool,
}

pub const PLAIN: Style = Style {
    case: false,
    params: false,
    escapes: false,
    folds: false,
    endings: false,
    version: false,
};
pub const FULL: Style = Style {
    case: true,
    params: true,
    escapes: true,
    folds: true,
    endings: true,
    version: true,
};

impl Style {
    /// A random subset of the freedoms.
    pub fn random(r: &mut Rng) -> Style {
        Style {
            case: r.bool(),
            params: r.bool(),
            escapes: r.bool(),
            folds: r.chance(1, 3),
            endings: r.bool(),
            version: r.chance(1, 4),
        }
    }
}

/// Random case of the ASCII letters.
pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_string(),
        _ => s
            .chars()
            .map(|c| {
                if r.bool() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect(),
    }
}

fn kw(r: &mut Rng, st: &Style, s: &str) -> String {
    if st.case {
        recase(r, s)
    } else {
        s.to_string()
    }
}

/// Escape text; `must` are the delimiters that have to be escaped.
pub fn esc(r: &mut Rng, st: &Style, s: &str, must: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str(if st.escapes && r.chance(1, 3) {
                "\\N"
            } else {
                "\\n"
            }),
            ',' | ';' => {
                if must.contains(c) || (st.escapes && r.bool()) {
                    o.push('\\');
                }
                o.push(c);
            }
            _ => o.push(c),
        }
    }
    o
}

fn join<T>(l: &[T], sep: &str, mut f: impl FnMut(&T) -> String) -> String {
    l.iter().map(|x| f(x)).collect::<Vec<_>>().join(sep)
}

pub fn w_date(d: &MDate) -> String {
    format!("{:04}{:02}{:02}", d.y, d.m, d.d)
}
pub fn w_off(o: i32) -> String {
    let m = o.abs() / 60;
    format!(
        "{}{:02}{:02}",
        if o < 0 { '-' } else { '+' },
        m / 60,
        m % 60
    )
}
/// Time with an explicit zone.
pub fn w_time(t: &MTime) -> String {
    format!("{:02}{:02}{:02}{}", t.h, t.m, t.s, w_off(t.off))
}
/// Time zone as Z when UTC.
pub fn w_time_z(t: &MTime) -> String {
    if t.off == 0 {
        format!("{:02}{:02}{:02}Z", t.h, t.m, t.s)
    } else {
        w_time(t)
    }
}
pub fn w_datetime(d: &MDate, t: &MTime) -> String {
    format!("{}T{}", w_date(d), w_time_z(t))
}
pub fn w_dt(d: &MDt) -> String {
    match d {
        MDt::D(d) => w_date(d),
        MDt::DT(d, t) => w_datetime(d, t),
        MDt::T(t) => format!("T{}", w_time(t)),
    }
}

/// The value of a property as it appears on the wire.
pub fn value(r: &mut Rng, st: &Style, p: &MProp) -> String {
    match &p.val {
        MVal::Text(s) => esc(r, st, s, ","),
        MVal::List(l) => {
            let (sep, must) = if p.name == "CATEGORIES" {
                (",", ",")
            } else {
                (";", ";")
            };
            join(l, sep, |s| esc(r, st, s, must))
        }
        MVal::Uri(u) => u.clone(),
        MVal::Adr(a) => join(a, ";", |c| match c {
            Some(s) => esc(r, st, s, ";"),
            None => String::new(),
        }),
        MVal::Kind(k) => k.to_string(),
        MVal::Gender(s, None) => s.to_string(),
        MVal::Gender(s, Some(i)) => format!("{s};{}", esc(r, st, i, ";")),
        MVal::Lang(l) => esc(r, st, l, ","),
        MVal::Dt(l) => join(l, ",", w_dt),
        MVal::Rev(d, t) => w_datetime(d, t),
        MVal::Off(o) => w_off(*o),
        MVal::PidMap(n, u) => format!("{n};{u}"),
        MVal::Int(l) => join(l, ",", |i| i.to_string()),
        MVal::Float(l) => join(l, ",", |b| {
            let f = f64::from_bits(*b);
            if st.escapes && r.bool() {
                format!("{f:e}")
            } else {
                format!("{f}")
            }
        }),
        MVal::Bool(b) => kw(r, st, if *b { "true" } else { "false" }),
        MVal::Date(l) => join(l, ",", w_date),
        MVal::DateTime(l) => join(l, ",", |(d, t)| w_datetime(d, t)),
        MVal::Time(l) => join(l, ",", w_time),
        MVal::Timestamp(l) => join(l, ",", |(d, t)| w_datetime(d, t)),
    }
}

/// A parameter value that is not a list.
fn pvalue(r: &mut Rng, st: &Style, s: &str, force: bool) -> String {
    let special = s.contains([':', ';', ',']);
    let quote = force || s.contains(':') || (special && r.bool()) || (st.params && r.chance(1, 4));
    if quote {
        format!("\"{}\"", esc(r, st, s, ""))
    } else {
        esc(r, st, s, ",;")
    }
}

fn plist(r: &mut Rng, st: &Style, l: &[String]) -> String {
    let quote = l.iter().any(|s| s.contains(':')) || (st.params && r.chance(1, 3));
    let must = if quote { "," } else { ",;" };
    let v = join(l, ",", |s| esc(r, st, s, must));
    if quote {
        format!("\"{v}\"")
    } else {
        v
    }
}

pub fn type_token(r: &mut Rng, st: &Style, t: &MType) -> String {
    match t {
        MType::Home => kw(r, st, "home"),
        MType::Work => kw(r, st, "work"),
        MType::Tel(t) => kw(r, st, t),
        MType::Rel(t) => kw(r, st, t),
        MType::Ext(s) => {
            // An extension may be written without the prefix unless it
            // would then mean something else
            let l = s.to_lowercase();
            let clash = l == "home"
                || l == "work"
                || l.starts_with("x-")
                || TELS.contains(&&l[..])
                || RELS.contains(&&l[..]);
            if !clash && st.params && r.bool() {
                s.clone()
            } else {
                format!("{}{s}", if st.case && r.bool() { "x-" } else { "X-" })
            }
        }
    }
}

/// All the `;NAME=value` parts of a line.
pub fn params(r: &mut Rng, st: &Style, p: &MParams) -> Vec<String> {
    // (sort key to keep the order of repeated parameters, text)
    let mut parts: Vec<(u8, String)> = Vec::new();
    let mut add = |r: &mut Rng, k: u8, name: &str, v: String| {
        let name = kw(r, st, name);
        parts.push((k, format!(";{name}={v}")));
    };
    if let Some(v) = &p.language {
        let v = pvalue(r, st, v, false);
        add(r, 0, "LANGUAGE", v);
    }
    if let Some(v) = p.value {
        let mut v = kw(r, st, v);
        if st.params && r.chance(1, 4) {
            v = format!("\"{v}\"");
        }
        add(r, 0, "VALUE", v);
    }
    if let Some(v) = p.pref {
        let mut v = v.to_string();
        if st.params && r.chance(1, 4) {
            v = format!("\"{v}\"");
        }
        add(r, 0, "PREF", v);
    }
    if let Some(v) = &p.alt_id {
        let v = pvalue(r, st, v, false);
        add(r, 0, "ALTID", v);
    }
    if let Some(l) = &p.pid {
        let mut v = join(l, ",", |(a, b)| match b {
            Some(b) => format!("{a}.{b}"),
            None => a.to_string(),
        });
        if st.params && r.chance(1, 4) {
            v = format!("\"{v}\"");
        }
        add(r, 0, "PID", v);
    }
    if let Some(l) = &p.types {
        let mut i = 0;
        while i < l.len() {
            let n = if st.params && r.bool() {
                1 + r.below(l.len() - i)
            } else {
                l.len() - i
            };
            let toks: Vec<String> = l[i..i + n].iter().map(|t| type_token(r, st, t)).collect();
            let v = plist(r, st, &toks);
            add(r, 1, "TYPE", v);
            i += n;
        }
    }
    if let Some(v) = &p.media_type {
        let v = pvalue(r, st, v, false);
        add(r, 0, "MEDIATYPE", v);
    }
    if let Some(v) = &p.calscale {
        let v = pvalue(r, st, v, false);
        add(r, 0, "CALSCALE", v);
    }
    if let Some(l) = &p.sort_as {
        let v = plist(r, st, l);
        add(r, 0, "SORT-AS", v);
    }
    if let Some(v) = &p.geo {
        add(r, 0, "GEO", format!("\"{v}\""));
    }
    match &p.tz {
        Some(MTz::Text(s)) => {
            let v = pvalue(r, st, s, is_offset(s));
            add(r, 0, "TZ", v);
        }
        Some(MTz::Uri(u)) => add(r, 0, "TZ", format!("\"{u}\"")),
        Some(MTz::Off(o)) => {
            let v = w_off(*o);
            add(r, 0, "TZ", v)
        }
        None => {}
    }
    if let Some(v) = &p.label {
        let v = pvalue(r, st, v, false);
        add(r, 0, "LABEL", v);
    }
    if let Some(l) = &p.ext {
        for (n, v) in l {
            let v = plist(r, st, v);
            // the exact name is significant
            parts.push((2, format!(";{n}={v}")));
        }
    }
    if st.params {
        // shuffle, keeping the relative order of TYPE and X- parameters
        let mut idx: Vec<usize> = (0..parts.len()).collect();
        r.shuffle(&mut idx);
        for k in [1u8, 2] {
            let slots: Vec<usize> = (0..idx.len()).filter(|i| parts[idx[*i]].0 == k).collect();
            let mut items: Vec<usize> = slots.iter().map(|i| idx[*i]).collect();
            items.sort();
            for (s, it) in slots.iter().zip(items) {
                idx[*s] = it;
            }
        }
        return idx.into_iter().map(|i| parts[i].1.clone()).collect();
    }
    parts.into_iter().map(|p| p.1).collect()
}

/// Would unquoted TZ parameter text be read as an offset?
pub fn is_offset(s: &str) -> bool {
    s == "Z" || s.starts_with('+') || s.starts_with('-')
}

/// One logical (unfolded) content line.
pub fn line(r: &mut Rng, st: &Style, p: &MProp) -> String {
    let mut s = String::new();
    if let Some(g) = &p.group {
        s.push_str(g);
        s.push('.');
    }
    if crate::gen::is_ext(&p.name) {
        s.push_str(&p.name);
    } else {
        s.push_str(&kw(r, st, &p.name));
    }
    if let Some(p) = &p.params {
        for part in params(r, st, p) {
            s.push_str(&part);
        }
    }
    s.push(':');
    s.push_str(&value(r, st, p));
    s
}

/// Logical lines of a card, including the envelope.
pub fn card_lines(r: &mut Rng, st: &Style, c: &[MProp]) -> Vec<String> {
    let mut l = vec![kw(r, st, "BEGIN:VCARD")];
    let v = if st.version && r.bool() {
        "VERSION:3.0"
    } else {
        "VERSION:4.0"
    };
    l.push(kw(r, st, v));
    for p in c {
        l.push(line(r, st, p));
    }
    l.push(kw(r, st, "END:VCARD"));
    l
}

/// Insert folds into a logical line.
pub fn fold(r: &mut Rng, line: &str, per_mille: usize) -> String {
    let mut o = String::with_capacity(line.len() + 16);
    // (a fold after a bare CR would make it part of the line ending)
    let mut first = true;
    for c in line.chars() {
        if !first && !o.ends_with('\r') && r.chance(per_mille, 1000) {
            o.push_str(r.pick(&["\r\n ", "\r\n\t", "\n ", "\n\t"]));
            // adjacent folds
            if r.chance(1, 20) {
                o.push_str(r.pick(&["\r\n ", "\n\t"]));
            }
        }
        first = false;
        o.push(c);
    }
    o
}

/// Physical text of logical lines.
pub fn physical(r: &mut Rng, st: &Style, lines: &[String]) -> String {
    let mode = if st.endings { r.below(3) } else { 0 };
    let rate = if st.folds {
        *r.of(&[5, 20, 100, 1000])
    } else {
        0
    };
    let mut o = String::new();
    for l in lines {
        if rate > 0 {
            o.push_str(&fold(r, l, rate));
        } else {
            o.push_str(l);
        }
        o.push_str(match mode {
            0 => "\r\n",
            1 => "\n",
            _ => {
                if r.bool() {
                    "\r\n"
                } else {
                    "\n"
                }
            }
        });
    }
    o
}

/// Text of several cards, optionally separated by blank lines.
pub fn document(r: &mut Rng, st: &Style, cards: &[MCard]) -> String {
    let mut o = String::new();
    for (i, c) in cards.iter().enumerate() {
        if st.endings && (i > 0 || r.chance(1, 8)) {
            for _ in 0..r.below(3) {
                o.push_str(if r.bool() { "\r\n" } else { "\n" });
            }
        }
        let l = card_lines(r, st, c);
        o.push_str(&physical(r, st, &l));
    }
    if st.endings {
        match r.below(6) {
            0 => {
                // no final line ending
                while o.ends_with(['\n', '\r']) {
                    o.pop();
                }
            }
            1 => o.push_str("\r\n\n"),
            _ => {}
        }
    }
    o
}
