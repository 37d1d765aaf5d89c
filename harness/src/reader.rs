//! Independent RFC 6350 reader, used on the text written by the library.

use crate::model::*;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub group: Option<String>,
    pub name: String,
    /// name and raw value (without the quotes) of each parameter
    pub params: Vec<(String, String, bool)>,
    pub value: String,
}

/// Check the physical format of one written card or stream of cards and
/// return the logical lines.
pub fn logical_lines(text: &str) -> Result<Vec<String>, String> {
    if !text.ends_with("\r\n") {
        return Err("output does not end with CRLF".into());
    }
    let body = &text[..text.len() - 2];
    let mut out: Vec<String> = Vec::new();
    for (i, l) in body.split("\r\n").enumerate() {
        if l.contains('\r') || l.contains('\n') {
            return Err(format!("bare CR or LF in physical line {i}: {l:?}"));
        }
        if l.len() > 75 {
            // only one oversized grapheme cluster may exceed the limit
            let c = l.strip_prefix(' ').unwrap_or(l);
            if UnicodeSegmentation::graphemes(c, true).count() > 1 {
                return Err(format!("physical line {i} has {} octets: {l:?}", l.len()));
            }
        }
        if let Some(c) = l.strip_prefix([' ', '\t']) {
            match out.last_mut() {
                Some(p) => p.push_str(c),
                None => return Err("continuation without a line".into()),
            }
        } else if l.is_empty() {
            return Err(format!("empty physical line {i}"));
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}

/// Check that the folds of `text` do not split grapheme clusters.
pub fn folds_ok(text: &str) -> Result<usize, String> {
    let mut folds = 0;
    let mut rest: Vec<&str> = text.split("\r\n").collect();
    rest.pop();
    let mut i = 0;
    while i < rest.len() {
        let mut logical = rest[i].to_string();
        let mut cuts = Vec::new();
        i += 1;
        while i < rest.len() && rest[i].starts_with([' ', '\t']) {
            cuts.push(logical.len());
            logical.push_str(&rest[i][1..]);
            i += 1;
        }
        if cuts.is_empty() {
            continue;
        }
        folds += cuts.len();
        let mut bounds = std::collections::HashSet::new();
        for (p, _) in UnicodeSegmentation::grapheme_indices(&logical[..], true) {
            bounds.insert(p);
        }
        for c in cuts {
            if !bounds.contains(&c) {
                return Err(format!(
                    "fold inside a grapheme cluster at {c} of {logical:?}"
                ));
            }
        }
    }
    Ok(folds)
}

fn is_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
}

/// Parse one content line by the grammar of RFC 6350 section 3.3.
pub fn content_line(l: &str) -> Result<Line, String> {
    let b: Vec<char> = l.chars().collect();
    for c in &b {
        if (*c as u32) < 0x20 && *c != '\t' || *c == '\u{7f}' {
            return Err(format!("control character in {l:?}"));
        }
    }
    let mut i = 0;
    let take = |i: &mut usize, stop: &dyn Fn(char) -> bool| -> String {
        let mut s = String::new();
        while *i < b.len() && !stop(b[*i]) {
            s.push(b[*i]);
            *i += 1;
        }
        s
    };
    let mut name = take(&mut i, &|c| matches!(c, ';' | ':' | '.'));
    let mut group = None;
    if i < b.len() && b[i] == '.' {
        i += 1;
        group = Some(name);
        name = take(&mut i, &|c| matches!(c, ';' | ':' | '.'));
    }
    if !is_name(&name) || group.as_deref().is_some_and(|g| !is_name(g)) {
        return Err(format!("bad name in {l:?}"));
    }
    let mut params = Vec::new();
    while i < b.len() && b[i] == ';' {
        i += 1;
        let pname = take(&mut i, &|c| matches!(c, '=' | ';' | ':'));
        if !is_name(&pname) || i >= b.len() || b[i] != '=' {
            return Err(format!("bad parameter name {pname:?} in {l:?}"));
        }
        i += 1;
        let mut v = String::new();
        let mut quoted = false;
        if i < b.len() && b[i] == '"' {
            quoted = true;
            i += 1;
            v = take(&mut i, &|c| c == '"');
            if i >= b.len() {
                return Err(format!("unterminated quote in {l:?}"));
            }
            i += 1;
        } else {
            v.push_str(&take(&mut i, &|c| matches!(c, ';' | ':')));
            if v.contains('"') {
                return Err(format!("quote inside parameter of {l:?}"));
            }
        }
        params.push((pname, v, quoted));
    }
    if i >= b.len() || b[i] != ':' {
        return Err(format!("colon expected in {l:?}"));
    }
    i += 1;
    Ok(Line {
        group,
        name,
        params,
        value: b[i..].iter().collect(),
    })
}

/// Split at the delimiters that are not escaped.
pub fn split(s: &str, d: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            let o = out.last_mut().unwrap();
            o.push(c);
            if let Some(n) = it.next() {
                o.push(n);
            }
        } else if c == d {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

/// Undo backslash escapes; an unescaped delimiter of `forbid` is an error.
pub fn unescape(s: &str, forbid: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') | Some('N') => o.push('\n'),
                Some(c @ ('\\' | ',' | ';')) => o.push(c),
                other => return Err(format!("bad escape \\{other:?} in {s:?}")),
            }
        } else if forbid.contains(c) {
            return Err(format!("unescaped {c:?} in {s:?}"));
        } else {
            o.push(c);
        }
    }
    Ok(o)
}

fn num(s: &str, a: usize, n: usize) -> Result<u32, String> {
    s.get(a..a + n)
        .filter(|d| d.bytes().all(|b| b.is_ascii_digit()))
        .and_then(|d| d.parse().ok())
        .ok_or_else(|| format!("{n} digits expected at {a} of {s:?}"))
}

pub fn r_date(s: &str) -> Result<MDate, String> {
    if s.len() != 8 {
        return Err(format!("not a basic date: {s:?}"));
    }
    let d = MDate {
        y: num(s, 0, 4)? as i32,
        m: num(s, 4, 2)? as u8,
        d: num(s, 6, 2)? as u8,
    };
    if d.m < 1 || d.m > 12 || d.d < 1 || d.d > crate::gen::days_in_month(d.y, d.m) {
        return Err(format!("no such date: {s:?}"));
    }
    Ok(d)
}

pub fn r_off(s: &str) -> Result<i32, String> {
    if s.len() != 5 || !(s.starts_with('+') || s.starts_with('-')) {
        return Err(format!("not a UTC offset: {s:?}"));
    }
    let (h, m) = (num(s, 1, 2)? as i32, num(s, 3, 2)? as i32);
    if h > 23 || m > 59 {
        return Err(format!("no such offset: {s:?}"));
    }
    let o = (h * 60 + m) * 60;
    Ok(if s.starts_with('-') { -o } else { o })
}

pub fn r_time(s: &str) -> Result<MTime, String> {
    let t = MTime {
        h: num(s, 0, 2)? as u8,
        m: num(s, 2, 2)? as u8,
        s: num(s, 4, 2)? as u8,
        ns: 0,
        off: match &s[6..] {
            "" | "Z" => 0,
            z => r_off(z)?,
        },
    };
    if t.h > 23 || t.m > 59 || t.s > 60 {
        return Err(format!("no such time: {s:?}"));
    }
    Ok(t)
}

pub fn r_datetime(s: &str) -> Result<(MDate, MTime), String> {
    let (d, t) = s.split_once('T').ok_or_else(|| format!("no T in {s:?}"))?;
    Ok((r_date(d)?, r_time(t)?))
}

pub fn r_dt(s: &str) -> Result<MDt, String> {
    if let Some(t) = s.strip_prefix('T') {
        Ok(MDt::T(r_time(t)?))
    } else if s.contains('T') {
        let (d, t) = r_datetime(s)?;
        Ok(MDt::DT(d, t))
    } else {
        Ok(MDt::D(r_date(s)?))
    }
}

fn stat(list: &[&'static str], s: &str) -> Option<&'static str> {
    list.iter().copied().find(|v| v.eq_ignore_ascii_case(s))
}

pub fn r_type(s: &str) -> MType {
    if s.eq_ignore_ascii_case("home") {
        MType::Home
    } else if s.eq_ignore_ascii_case("work") {
        MType::Work
    } else if let Some(t) = stat(&TELS, s) {
        MType::Tel(t)
    } else if let Some(t) = stat(&RELS, s) {
        MType::Rel(t)
    } else if let Some(e) = s.strip_prefix("X-").or_else(|| s.strip_prefix("x-")) {
        MType::Ext(e.to_string())
    } else {
        MType::Ext(s.to_string())
    }
}

pub fn r_params(params: &[(String, String, bool)]) -> Result<MParams, String> {
    let mut p = MParams::default();
    for (n, v, quoted) in params {
        let plain = unescape(v, "")?;
        let once = |set: bool| {
            if set {
                Err(format!("parameter {n} written twice"))
            } else {
                Ok(())
            }
        };
        let list = |v: &str| -> Result<Vec<String>, String> {
            split(v, ',').iter().map(|s| unescape(s, "")).collect()
        };
        match &n.to_ascii_uppercase()[..] {
            "LANGUAGE" => {
                once(p.language.is_some())?;
                p.language = Some(plain)
            }
            "VALUE" => {
                once(p.value.is_some())?;
                p.value = Some(stat(&VALUES, &plain).ok_or_else(|| format!("VALUE={plain}"))?)
            }
            "PREF" => {
                once(p.pref.is_some())?;
                p.pref = Some(plain.parse().map_err(|_| format!("PREF={v}"))?)
            }
            "ALTID" => {
                once(p.alt_id.is_some())?;
                p.alt_id = Some(plain)
            }
            "PID" => {
                once(p.pid.is_some())?;
                let mut l = Vec::new();
                for i in list(v)? {
                    let e = |_| format!("PID={v}");
                    l.push(match i.split_once('.') {
                        Some((a, b)) => (a.parse().map_err(e)?, Some(b.parse().map_err(e)?)),
                        None => (i.parse().map_err(e)?, None),
                    });
                }
                p.pid = Some(l)
            }
            "TYPE" => p
                .types
                .get_or_insert_with(Vec::new)
                .extend(list(v)?.iter().map(|s| r_type(s))),
            "MEDIATYPE" => {
                once(p.media_type.is_some())?;
                p.media_type = Some(plain)
            }
            "CALSCALE" => {
                once(p.calscale.is_some())?;
                p.calscale = Some(plain)
            }
            "SORT-AS" => {
                once(p.sort_as.is_some())?;
                p.sort_as = Some(list(v)?)
            }
            "GEO" => {
                once(p.geo.is_some())?;
                if !quoted {
                    return Err("GEO parameter is not quoted".into());
                }
                p.geo = Some(plain)
            }
            "TZ" => {
                once(p.tz.is_some())?;
                p.tz = Some(if *quoted {
                    if crate::gen::has_scheme(&plain) {
                        MTz::Uri(plain)
                    } else {
                        MTz::Text(plain)
                    }
                } else if let Ok(o) = r_off(&plain) {
                    MTz::Off(o)
                } else {
                    MTz::Text(plain)
                })
            }
            "LABEL" => {
                once(p.label.is_some())?;
                p.label = Some(plain)
            }
            u if u.starts_with("X-") || u == "ENCODING" => p
                .ext
                .get_or_insert_with(Vec::new)
                .push((n.clone(), list(v)?)),
            _ => return Err(format!("unknown parameter {n}")),
        }
    }
    Ok(p)
}

fn each<T>(v: &str, f: impl Fn(&str) -> Result<T, String>) -> Result<Vec<T>, String> {
    v.split(',').map(f).collect()
}

/// Interpret a content line of a known property.
pub fn interpret(l: &Line) -> Result<MProp, String> {
    let ext = crate::gen::is_ext(&l.name);
    let name = if ext {
        l.name.clone()
    } else {
        l.name.to_ascii_uppercase()
    };
    let p = r_params(&l.params)?;
    let v = &l.value[..];
    let text = || unescape(v, ",").map(MVal::Text);
    let err = |what: &str| format!("{what}: {v:?}");
    let val = match (&name[..], p.value) {
        (_, None) | (_, Some("text")) if ext => text()?,
        (_, Some("uri")) if ext => MVal::Uri(v.to_string()),
        (_, Some("date")) if ext => MVal::Date(each(v, r_date)?),
        (_, Some("time")) if ext => MVal::Time(each(v, r_time)?),
        (_, Some("date-time")) if ext => MVal::DateTime(each(v, r_datetime)?),
        (_, Some("date-and-or-time")) if ext => MVal::Dt(each(v, r_dt)?),
        (_, Some("timestamp")) if ext => MVal::Timestamp(each(v, r_datetime)?),
        (_, Some("boolean")) if ext => MVal::Bool(match &v.to_ascii_lowercase()[..] {
            "true" => true,
            "false" => false,
            _ => return Err(err("boolean")),
        }),
        (_, Some("integer")) if ext => {
            MVal::Int(each(v, |s| s.parse().map_err(|_| err("integer")))?)
        }
        (_, Some("float")) if ext => MVal::Float(each(v, |s| {
            s.parse::<f64>()
                .map(|f| f.to_bits())
                .map_err(|_| err("float"))
        })?),
        (_, Some("utc-offset")) if ext => MVal::Off(r_off(v)?),
        (_, Some("language-tag")) if ext => MVal::Lang(unescape(v, ",")?),
        ("KIND", _) => MVal::Kind(stat(&KINDS, v).ok_or_else(|| err("kind"))?),
        ("N" | "ORG", _) => MVal::List(
            split(v, ';')
                .iter()
                .map(|s| unescape(s, ""))
                .collect::<Result<_, _>>()?,
        ),
        ("CATEGORIES", _) => MVal::List(
            split(v, ',')
                .iter()
                .map(|s| unescape(s, ""))
                .collect::<Result<_, _>>()?,
        ),
        ("ADR", _) => {
            let c = split(v, ';');
            if c.len() != 7 {
                return Err(err("7 components expected"));
            }
            let mut a: [Option<String>; 7] = Default::default();
            for (i, s) in c.iter().enumerate() {
                if !s.is_empty() {
                    a[i] = Some(unescape(s, ",")?);
                }
            }
            MVal::Adr(a)
        }
        ("GENDER", _) => {
            let c = split(v, ';');
            if c.len() > 2 {
                return Err(err("gender"));
            }
            MVal::Gender(
                stat(&SEXES, &c[0]).ok_or_else(|| err("sex"))?,
                match c.get(1) {
                    Some(i) => Some(unescape(i, "")?),
                    None => None,
                },
            )
        }
        ("LANG", _) => MVal::Lang(unescape(v, ",")?),
        ("REV", _) => {
            let (d, t) = r_datetime(v)?;
            MVal::Rev(d, t)
        }
        ("BDAY" | "ANNIVERSARY", Some("text")) => text()?,
        ("BDAY" | "ANNIVERSARY", _) => MVal::Dt(each(v, r_dt)?),
        ("CLIENTPIDMAP", _) => {
            let (n, u) = v.split_once(';').ok_or_else(|| err("CLIENTPIDMAP"))?;
            MVal::PidMap(n.parse().map_err(|_| err("CLIENTPIDMAP"))?, u.to_string())
        }
        ("TZ", Some("uri")) => MVal::Uri(v.to_string()),
        ("TZ", Some("utc-offset")) => MVal::Off(r_off(v)?),
        ("TZ", _) => text()?,
        (n, _) if crate::gen::URI_PROPS.contains(&n) => MVal::Uri(v.to_string()),
        (n, vt) if crate::gen::TEXT_URI_PROPS.contains(&n) || n == "PHOTO" => match vt {
            Some("text") => text()?,
            Some("uri") => MVal::Uri(v.to_string()),
            _ if crate::gen::has_scheme(v) => MVal::Uri(v.to_string()),
            _ => text()?,
        },
        (n, _) if crate::gen::TEXT_PROPS.contains(&n) => text()?,
        (n, _) => return Err(format!("unknown property {n}")),
    };
    Ok(MProp {
        name,
        group: l.group.clone(),
        params: Some(p).filter(|p| *p != MParams::default()),
        val,
    })
}

/// Read a stream of written cards.
pub fn read(text: &str) -> Result<Vec<MCard>, String> {
    let lines = logical_lines(text)?;
    let mut out = Vec::new();
    let mut cur: Option<MCard> = None;
    let mut it = lines.iter();
    while let Some(l) = it.next() {
        match (&mut cur, &l[..]) {
            (None, "BEGIN:VCARD") => {
                if it.next().map(|s| &s[..]) != Some("VERSION:4.0") {
                    return Err("VERSION:4.0 expected after BEGIN".into());
                }
                cur = Some(Vec::new());
            }
            (None, l) => return Err(format!("BEGIN:VCARD expected, got {l:?}")),
            (Some(_), "END:VCARD") => out.push(cur.take().unwrap()),
            (Some(c), l) => c.push(interpret(&content_line(l)?)?),
        }
    }
    if cur.is_some() {
        return Err("END:VCARD is missing".into());
    }
    Ok(out)
}
