//! Faulty input: C10 (loose parsing), C11 (cardinality), C12 (error kinds),
//! C13 (iteration).

use super::parse::count_props;
use super::*;
use crate::rng::Rng;
use crate::{gen, wire};

// ------------------------------------------------------- catalogue of faults

/// An invalid line together with what strict parsing must say about it.
#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: &'static str,
    pub line: String,
    /// Error variants allowed.
    pub errs: &'static [&'static str],
    /// Text the message of the error must contain.
    pub says: Option<String>,
    /// Upper case name of the property on the line, if it has one.
    pub name: String,
}

const TIMES: &[&str] = &[
    "TimeParse",
    "InvalidDate",
    "InvalidTime",
    "InvalidDateTime",
    "ComponentRange",
];

/// A line in parts, so that one part can be damaged.
pub struct Parts {
    pub name: String,
    pub head: String,
    pub params: Vec<String>,
    pub value: String,
}

impl Parts {
    fn of(r: &mut Rng, name: &str, density: usize) -> Parts {
        let p = gen::prop(r, name, density);
        let st = wire::Style {
            folds: false,
            endings: false,
            ..wire::Style::random(r)
        };
        let mut head = String::new();
        if let Some(g) = &p.group {
            head = format!("{g}.");
        }
        if gen::is_ext(name) {
            head.push_str(name);
        } else if st.case {
            head.push_str(&wire::recase(r, name));
        } else {
            head.push_str(name);
        }
        let params = match &p.params {
            Some(q) => wire::params(r, &st, q),
            None => Vec::new(),
        };
        Parts {
            name: name.to_string(),
            head,
            params,
            value: wire::value(r, &st, &p),
        }
    }
    fn line(&self) -> String {
        format!("{}{}:{}", self.head, self.params.concat(), self.value)
    }
    /// Insert a parameter anywhere.
    fn with(mut self, r: &mut Rng, param: &str) -> Parts {
        let i = r.below(self.params.len() + 1);
        let param = match param.split_once('=') {
            Some((k, v)) if KEYS.contains(&k) && r.chance(1, 3) => {
                format!("{}={v}", wire::recase(r, k))
            }
            _ => param.to_string(),
        };
        self.params.insert(i, format!(";{param}"));
        self
    }
    /// Remove a parameter.
    fn without(mut self, key: &str) -> Parts {
        self.params
            .retain(|p| !p[1..].to_ascii_uppercase().starts_with(&format!("{key}=")));
        self
    }
}

const KEYS: [&str; 16] = [
    "LANGUAGE",
    "VALUE",
    "PREF",
    "ALTID",
    "PID",
    "TYPE",
    "MEDIATYPE",
    "CALSCALE",
    "SORT-AS",
    "CHARSET",
    "LABEL",
    "ENCODING",
    "TZ",
    "GEO",
    "X-A",
    "X-B",
];

/// Any character that may not appear in a value.
fn control(r: &mut Rng) -> char {
    loop {
        let c = match r.below(36) {
            n if n < 32 => n as u8 as char,
            n if n < 34 => '\u{7f}',
            _ => '\r',
        };
        if c != '\t' && c != '\n' {
            return c;
        }
    }
}

/// As it is or in quotes.
fn maybe_quoted(r: &mut Rng, v: &str) -> String {
    if r.chance(1, 3) && !v.contains('"') {
        format!("\"{v}\"")
    } else {
        v.to_string()
    }
}

/// The name of a property that is not bound to particular surroundings.
fn any_name(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        gen::xname(r)
    } else {
        r.pick(&FIELDS).to_string()
    }
}

fn text_name(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        gen::xname(r)
    } else {
        r.pick(&gen::TEXT_PROPS).to_string()
    }
}

fn bad_line(
    kind: &'static str,
    p: Parts,
    errs: &'static [&'static str],
    says: Option<String>,
) -> Bad {
    Bad {
        kind,
        line: p.line(),
        errs,
        says,
        name: p.name.to_ascii_uppercase(),
    }
}

/// Text that cannot be a URI.
pub fn not_uri(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => gen::alnum(r, 1, 12),
        2 => format!(
            "{}{}:{}",
            r.below(10),
            gen::alnum(r, 0, 4),
            gen::alnum(r, 1, 4)
        ),
        3 => format!("http://a b/{}", gen::alnum(r, 0, 4)),
        4 => format!("//{}/x", gen::alnum(r, 1, 6)),
        5 => format!("http://h/%{}", r.pick(&["", "1", "zz", "g0"])),
        6 => "http://[::1".to_string(),
        7 => format!(":{}", gen::alnum(r, 0, 5)),
        _ => format!("urn:{}\\n", gen::alnum(r, 1, 5)),
    }
}

/// A date-like value that is not a date, time or date-time.
pub fn not_dt(r: &mut Rng) -> String {
    let d = gen::date(r);
    let (y, m, dd) = (d.y, d.m, d.d);
    match r.below(16) {
        0 => format!("{y:04}13{dd:02}"),
        1 => format!("{y:04}00{dd:02}"),
        2 => format!("{y:04}{m:02}00"),
        3 => format!("{y:04}{m:02}{:02}", gen::days_in_month(y, m) + 1),
        4 => format!("{y:04}{m:02}32"),
        5 => "9985-13".to_string(),
        6 => format!("{y:04}{m:02}{dd:02}T246060"),
        7 => format!("{y:04}{m:02}{dd:02}T106000"),
        8 => format!("{y:04}{m:02}{dd:02}T256"),
        9 => "T250000".to_string(),
        10 => "T126000Z".to_string(),
        11 => format!("{y:04}{m:02}{dd:02}T101010+2a00"),
        12 => gen::alnum(r, 1, 3) + "x",
        13 => "yesterday".to_string(),
        14 => format!("{y:04}{m:02}{dd:02}T"),
        _ => format!("{y:04}/{m:02}/{dd:02}"),
    }
}

/// A timestamp-like value that is not a timestamp.
pub fn not_timestamp(r: &mut Rng) -> String {
    let d = gen::date(r);
    let (y, m, dd) = (d.y, d.m, d.d);
    match r.below(12) {
        0 => String::new(),
        1 => format!("{y:04}{m:02}{dd:02}"),
        2 => format!("{y:04}13{dd:02}T101010Z"),
        3 => format!("{y:04}{m:02}{:02}T101010Z", gen::days_in_month(y, m) + 1),
        4 => format!("{y:04}{m:02}{dd:02}T240000Z"),
        5 => format!("{y:04}{m:02}{dd:02}T106010Z"),
        6 => format!("{y:04}{m:02}{dd:02}T101061Z"),
        7 => format!("{y:04}{m:02}{dd:02}101010"),
        8 => format!("{y:04}{m:02}{dd:02}T101010+"),
        9 => "T101010Z".to_string(),
        10 => format!("{y:04}{m:02}{dd:02}T101010ZZ"),
        _ => "now".to_string(),
    }
}

pub const FAULTS: usize = 36;

/// A line with exactly one fault of the given kind.
pub fn bad(r: &mut Rng, kind: usize) -> Bad {
    let density = *r.of(&[0, 0, 20, 50]);
    match kind {
        0 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density);
            let x = *r.of(&[
                "FOO=bar",
                "=x",
                "home",
                "QUOTED-PRINTABLE",
                "1=2",
                "é=1",
                "",
                " PREF=1",
                "\\n=1",
                "FN=x",
                "NOTE=1",
                "\"a\"=1",
                ",=2",
            ]);
            bad_line(
                "unknown parameter",
                p.with(r, x),
                &["UnknownParameter"],
                None,
            )
        }
        1 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density).without("PREF");
            let v = match r.below(3) {
                0 => 0,
                1 => 101,
                _ => r.range(101, 255),
            };
            bad_line(
                "PREF out of range",
                {
                    let v = match r.below(4) {
                        0 => format!("\"{v}\""),
                        1 => format!("0{v}"),
                        _ => v.to_string(),
                    };
                    let p = if r.chance(1, 6) {
                        p.with(r, "PREF=1")
                    } else {
                        p
                    };
                    p.with(r, &format!("PREF={v}"))
                },
                &["PrefOutOfRange"],
                Some(v.to_string()),
            )
        }
        2 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density).without("PREF");
            let v = *r.of(&[
                "",
                "256",
                "-1",
                "1.5",
                "abc",
                "1 ",
                " 1",
                "0x1",
                "1000000000000",
                "1e1",
                "\"\"",
            ]);
            bad_line(
                "PREF not a number",
                p.with(r, &format!("PREF={v}")),
                &["ParseInt"],
                None,
            )
        }
        3 => {
            let n = loop {
                let n = any_name(r);
                if n != "CLIENTPIDMAP" {
                    break n;
                }
            };
            let p = Parts::of(r, &n, density).without("PID");
            let v = *r.of(&[
                "",
                "a",
                "1.",
                ".1",
                "1.a",
                "-1",
                "1.-1",
                "1,",
                ",1",
                "1.2,x",
                "1 .2",
                "1.1.1",
                "99999999999999999999",
            ]);
            let v = match r.below(5) {
                0 => format!("1,{v}"),
                1 if !v.is_empty() => format!("{v},1.2"),
                2 => format!("7.7,2,{v}"),
                _ => v.to_string(),
            };
            let v = maybe_quoted(r, &v);
            bad_line(
                "malformed PID",
                p.with(r, &format!("PID={v}")),
                &["ParseInt", "InvalidPid"],
                None,
            )
        }
        4 => {
            let n = loop {
                let n = r.pick(&FIELDS);
                if !gen::type_allowed(n) {
                    break n;
                }
            };
            let p = Parts::of(r, n, density);
            let v = *r.of(&["home", "work", "cell", "\"home\"", "x-a", "HOME,WORK"]);
            bad_line(
                "TYPE not allowed",
                p.with(r, &format!("TYPE={v}")),
                &["TypeParameter"],
                Some(n.to_string()),
            )
        }
        5 => {
            let n = loop {
                let n = any_name(r);
                if n != "ADR" {
                    break n;
                }
            };
            let p = Parts::of(r, &n, density);
            bad_line(
                "LABEL off ADR",
                {
                    let v = r.of(&[
                        "LABEL=\"1 Road\"",
                        "LABEL=x",
                        "LABEL=",
                        "LABEL=\"\"",
                        "LABEL=a,b",
                    ]);
                    p.with(r, v)
                },
                &["InvalidLabel"],
                Some(n.to_ascii_uppercase()),
            )
        }
        6 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density).without("GEO");
            bad_line(
                "unquoted GEO",
                {
                    let v = r.of(&["GEO=geo", "GEO=", "GEO=a,b", "GEO=geo\\;x"]);
                    p.with(r, v)
                },
                &["NotQuoted"],
                None,
            )
        }
        7 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density).without("GEO");
            let v = loop {
                let v = not_uri(r);
                if !v.contains('\\') {
                    break v;
                }
            };
            bad_line(
                "GEO not a URI",
                p.with(r, &format!("GEO=\"{v}\"")),
                &["UriParse"],
                None,
            )
        }
        8 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density);
            let v = *r.of(&[
                "ISO-8859-1",
                "UTF-16",
                "US-ASCII",
                "UTF8x",
                "UTF-7",
                "\"latin1\"",
            ]);
            bad_line(
                "CHARSET",
                p.with(r, &format!("CHARSET={v}")),
                &["CharsetParameter"],
                Some(v.trim_matches('"').to_string()),
            )
        }
        9 => {
            // of the value types only those the property takes
            let n = *r.of(&["BDAY", "ANNIVERSARY", "TZ", "TEL", "RELATED", "UID", "KEY"]);
            let p = Parts::of(r, n, density).without("VALUE");
            let ok: &[&str] = match n {
                "BDAY" | "ANNIVERSARY" => &["text", "date-and-or-time"],
                "TZ" => &["text", "uri", "utc-offset"],
                _ => &["text", "uri"],
            };
            let v = loop {
                let v = r.pick(&VALUES);
                if !ok.contains(&v) {
                    break v;
                }
            };
            bad_line(
                "unsupported VALUE",
                p.with(r, &format!("VALUE={v}")),
                &["UnsupportedValueType", "UnknownValueType"],
                Some(v.to_string()),
            )
        }
        10 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density);
            let x = *r.of(&[
                "ALTID=a\"b",
                "ALTID=\"a\"b",
                "ALTID=\"a\"\"b\"",
                "X-A=b\"c\"",
                "LANGUAGE=\"en\" ",
                "SORT-AS=\"a\",\"b\"",
            ]);
            bad_line(
                "misplaced quote",
                p.with(r, x),
                &["DelimiterExpected"],
                None,
            )
        }
        11 => {
            let n = text_name(r);
            let mut p = Parts::of(r, &n, 0);
            p.params.clear();
            let x = *r.of(&[
                "ALTID=\"abc",
                "X-A=\"",
                "ALTID=abc",
                "LANGUAGE=",
                "X-A=a;X-B=\"b",
            ]);
            let line = format!("{};{x}", p.head);
            Bad {
                kind: "parameter value not terminated",
                line,
                errs: &["DelimiterExpected"],
                says: None,
                name: n.to_ascii_uppercase(),
            }
        }
        12 => {
            let n = any_name(r);
            let mut p = Parts::of(r, &n, density);
            let c = control(r);
            let mut at: Vec<usize> = p.value.char_indices().map(|x| x.0).collect();
            at.push(p.value.len());
            let i = match r.below(4) {
                0 => 0,
                1 => p.value.len(),
                _ => *r.of(&at),
            };
            if c == '\r' && i == p.value.len() {
                // one may be part of the line ending
                p.value.push('\r');
            }
            p.value.insert(i, c);
            bad_line(
                "control character in a value",
                p,
                &["ControlCharacter"],
                None,
            )
        }
        13 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density);
            let c = control(r);
            let key = r.of(&[
                "ALTID",
                "X-A",
                "LANGUAGE",
                "CALSCALE",
                "SORT-AS",
                "MEDIATYPE",
                "TZ",
                "ENCODING",
                "PREF",
                "PID",
                "CHARSET",
                "VALUE",
                "TYPE",
                "LABEL",
                "X-B",
            ]);
            let v = match r.below(5) {
                0 => format!("{c}b"),
                1 => format!("a{c}"),
                2 => format!("{c}"),
                3 => format!("a,{c}b"),
                _ => format!("a{c}b"),
            };
            let v = maybe_quoted(r, &v);
            let x = format!("{key}={v}");
            bad_line(
                "control character in a parameter",
                p.with(r, &x),
                &["ControlCharacter"],
                None,
            )
        }
        14 => {
            let n = text_name(r);
            let p = Parts::of(r, &n, 0);
            let v = gen::alnum(r, 0, 8);
            let line = match r.below(5) {
                0 => p.head.clone(),
                1 => format!("{} {v}", p.head),
                2 => format!("{}={v}", p.head),
                3 => format!("{},{v}:x", p.head),
                _ => format!("{} :{v}", p.head),
            };
            Bad {
                kind: "no delimiter after the name",
                line,
                errs: &["DelimiterExpected"],
                says: None,
                name: n.to_ascii_uppercase(),
            }
        }
        15 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density);
            let x = *r.of(&[
                "PREF",
                "TYPE",
                "ALTID",
                "LANGUAGE:en",
                "VALUE;X-A=1",
                "X-A",
                "CALSCALE ",
            ]);
            bad_line(
                "parameter without value",
                p.with(r, x),
                &["IncorrectToken"],
                None,
            )
        }
        16 => {
            let v = gen::alnum(r, 1, 8);
            let line = match r.below(12) {
                0 => format!("FOO:{v}"),
                1 => format!("ABC;TYPE=home:{v}"),
                2 => format!("item1.AGENT:{v}"),
                3 => "FOO".to_string(),
                4 => format!(":{v}"),
                5 => format!(";PREF=1:{v}"),
                6 => format!("\\n{v}"),
                7 => format!("\"NOTE\":{v}"),
                8 => format!("é:{v}"),
                9 => format!("*NOTE:{v}"),
                10 => format!("NOTES:{v}"),
                _ => format!("TELL;PREF=1:{v}"),
            };
            Bad {
                kind: "unknown property",
                line,
                errs: &[
                    "IncorrectToken",
                    "DelimiterExpected",
                    "TokenExpected",
                    "UnknownPropertyName",
                ],
                says: None,
                name: String::new(),
            }
        }
        17 => {
            let n = r.pick(&gen::URI_PROPS);
            let mut p = Parts::of(r, n, density);
            p.value = not_uri(r);
            bad_line("URI value", p, &["UriParse"], None)
        }
        18 => {
            let n = *r.of(&["TEL", "RELATED", "UID", "KEY", "TZ"]);
            let mut p = Parts::of(r, n, density).without("VALUE");
            p.value = not_uri(r);
            let v = wire::recase(r, "uri");
            bad_line(
                "URI value declared",
                p.with(r, &format!("VALUE={v}")),
                &["UriParse"],
                None,
            )
        }
        19 => {
            let mut p = Parts::of(r, "KIND", density);
            p.value = r
                .of(&[
                    "person",
                    "groups",
                    "",
                    " group",
                    "individual ",
                    "grou",
                    "thing",
                    "group\\n",
                    "org,group",
                ])
                .to_string();
            bad_line("KIND", p, &["UnknownKind"], None)
        }
        20 => {
            let mut p = Parts::of(r, "GENDER", density);
            p.value = r
                .of(&["Z", "MM", "male", "X;foo", "1", " M", "M ;x", ",M"])
                .to_string();
            bad_line("GENDER", p, &["UnknownSex"], None)
        }
        21 => {
            let mut p = Parts::of(r, "ADR", density);
            let n = r.below(6);
            p.value = (0..=n)
                .map(|_| {
                    let w = gen::alnum(r, 0, 4);
                    if r.chance(1, 4) {
                        format!("{w}\\;")
                    } else {
                        w
                    }
                })
                .collect::<Vec<_>>()
                .join(";");
            bad_line("ADR with too few components", p, &["InvalidAddress"], None)
        }
        22 => {
            let mut p = Parts::of(r, "CLIENTPIDMAP", density);
            let u = gen::uri(r);
            let u = u.replace('\\', "");
            let (v, e): (String, &'static [&'static str]) = match r.below(7) {
                0 => ("1".into(), &["InvalidClientPidMap"]),
                1 => ("".into(), &["InvalidClientPidMap"]),
                2 => ("0;urn:x:y".into(), &["InvalidClientPidMap"]),
                3 => ("a;urn:x:y".into(), &["ParseInt", "InvalidClientPidMap"]),
                4 => ("-1;urn:x:y".into(), &["ParseInt", "InvalidClientPidMap"]),
                5 => (format!(";{u}"), &["ParseInt", "InvalidClientPidMap"]),
                _ => (
                    format!("1;{}", not_uri(r)),
                    &["UriParse", "InvalidClientPidMap"],
                ),
            };
            p.value = v;
            bad_line("CLIENTPIDMAP value", p, e, None)
        }
        23 => {
            let p = Parts::of(r, "CLIENTPIDMAP", density).without("PID");
            bad_line(
                "PID on CLIENTPIDMAP",
                {
                    let v = r.of(&[
                        "PID=1.1",
                        "PID=1",
                        "PID=1.1,2.1",
                        "PID=\"1,2,3\"",
                        "PID=7.7,1",
                    ]);
                    let p = if r.chance(1, 6) {
                        p.with(r, "PID=2")
                    } else {
                        p
                    };
                    p.with(r, v)
                },
                &["ClientPidMapPidNotAllowed"],
                None,
            )
        }
        24 => {
            let n = *r.of(&["BDAY", "ANNIVERSARY"]);
            let mut p = Parts::of(r, n, density).without("VALUE");
            p.value = not_dt(r);
            if r.chance(1, 4) {
                p.value = format!("19850412,{}", p.value);
            }
            let p = if r.chance(1, 3) {
                p.with(r, "VALUE=date-and-or-time")
            } else {
                p
            };
            bad_line("date-and-or-time", p, TIMES, None)
        }
        25 => {
            let mut p = Parts::of(r, "REV", density);
            p.value = not_timestamp(r);
            bad_line("timestamp", p, TIMES, None)
        }
        26 => {
            let mut p = Parts::of(r, "TZ", density).without("VALUE");
            p.value = not_offset(r);
            bad_line("UTC offset", p.with(r, "VALUE=utc-offset"), TIMES, None)
        }
        27..=33 => {
            let n = gen::xname(r);
            let mut p = Parts::of(r, &n, density).without("VALUE");
            let (ty, v, e): (&str, String, &'static [&'static str]) = match kind {
                27 => ("integer", not_int(r), &["ParseInt"]),
                28 => ("float", not_float(r), &["ParseFloat"]),
                29 => (
                    "boolean",
                    r.of(&["", "yes", "1", "tru", "true ", "true,false", "TRUE."])
                        .to_string(),
                    &["InvalidBoolean"],
                ),
                30 => ("uri", not_uri(r), &["UriParse"]),
                31 => ("utc-offset", not_offset(r), TIMES),
                32 => ("date-and-or-time", not_dt(r), TIMES),
                _ => ("timestamp", not_timestamp(r), TIMES),
            };
            p.value = v;
            bad_line(
                "typed extension",
                p.with(r, &format!("VALUE={ty}")),
                e,
                None,
            )
        }
        34 => {
            let v = *r.of(&["4.0", "3.0", "2.1", "5.0", "", "4.0.1"]);
            let head = match r.below(3) {
                0 => "VERSION".to_string(),
                1 => wire::recase(r, "version"),
                _ => format!("{}.VERSION", gen::group(r)),
            };
            let param = if r.chance(1, 4) { ";PREF=1" } else { "" };
            Bad {
                kind: "VERSION misplaced",
                line: format!("{head}{param}:{v}"),
                errs: if v == "4.0" || v == "3.0" {
                    &["VersionMisplaced"]
                } else {
                    // not a version this library knows
                    &["VersionMisplaced", "IncorrectToken"]
                },
                says: None,
                name: "VERSION".to_string(),
            }
        }
        35 => {
            let n = any_name(r);
            let p = Parts::of(r, &n, density).without("VALUE");
            let v = *r.of(&[
                "foo",
                "",
                "textt",
                "x-a",
                "date time",
                "int",
                "\"vcard\"",
                "text,uri",
            ]);
            bad_line(
                UNKNOWN_VALUE,
                p.with(r, &format!("VALUE={v}")),
                &["UnknownValueType"],
                Some(v.trim_matches('"').to_string()),
            )
        }
        _ => unreachable!(),
    }
}

/// The one kind loose parsing tolerates.
const UNKNOWN_VALUE: &str = "unknown VALUE";

fn not_int(r: &mut Rng) -> String {
    r.of(&[
        "",
        "a",
        "1.5",
        "1,",
        ",1",
        "1 2",
        " 1",
        "0x10",
        "1,b,3",
        "1;2",
        "--1",
        "9223372036854775808",
        "-9223372036854775809",
        "1e3",
    ])
    .to_string()
}

fn not_float(r: &mut Rng) -> String {
    r.of(&[
        "", "a", "1.5x", "1.5,", ",1", "1 2", " 1", "0x1p3", "1.0,b", "1.2.3", "--1", "1;2", "1e",
    ])
    .to_string()
}

pub fn not_offset(r: &mut Rng) -> String {
    r.of(&[
        "", "0100", "1", "+", "-", "+1", "+ab", "+2600", "+0160", "-9900", "+01000", "z", "EST",
        "+01-00", "-1:00", "ZZ", "+0100Z",
    ])
    .to_string()
}

// ------------------------------------------------------------- small helpers

pub fn shown(e: &vcard4::Error) -> String {
    format!("{}: {e}", variant(e))
}

fn expect_error(
    what: &str,
    input: &str,
    got: Result<Vec<vcard4::Vcard>, vcard4::Error>,
    b: &Bad,
) -> Result<String, Fail> {
    match got {
        Ok(cards) => fail(
            format!("{what}: accepted ({})", b.kind),
            input,
            format!("line {:?}\n  parsed as {:?}", b.line, dump_all(&cards)),
        ),
        Err(e) => {
            let v = variant(&e);
            if !b.errs.contains(&&v[..]) {
                return fail(
                    format!("{what}: wrong error ({})", b.kind),
                    input,
                    format!(
                        "line {:?}\n  expected {:?}, got {}",
                        b.line,
                        b.errs,
                        shown(&e)
                    ),
                );
            }
            if let Some(s) = &b.says {
                let m = e.to_string();
                if !m.to_ascii_uppercase().contains(&s.to_ascii_uppercase()) {
                    return fail(
                        format!("{what}: the message does not name the culprit ({})", b.kind),
                        input,
                        format!("line {:?}\n  expected {s:?} in {m:?}", b.line),
                    );
                }
            }
            Ok(shown(&e))
        }
    }
}

fn plain(lines: &[String]) -> String {
    let mut s = String::new();
    for l in lines {
        s.push_str(l);
        s.push_str("\r\n");
    }
    s
}

fn minimal(line: &str) -> String {
    plain(&[
        "BEGIN:VCARD".into(),
        "VERSION:4.0".into(),
        "FN:x".into(),
        line.into(),
        "END:VCARD".into(),
    ])
}

/// Strict results of every way to parse, which must agree.
fn strict_all(text: &str) -> Result<Result<Vec<vcard4::Vcard>, vcard4::Error>, Fail> {
    let p = vcard4::parse(text);
    let show = |r: &Result<Vec<vcard4::Vcard>, vcard4::Error>| match r {
        Ok(c) => format!("Ok {:?}", dump_all(c)),
        Err(e) => format!("Err {}", shown(e)),
    };
    let i: Result<Vec<_>, _> = vcard4::iter(text, true).collect();
    let i = match i {
        Ok(v) if v.is_empty() => p_empty(),
        x => x,
    };
    if show(&p) != show(&i) {
        return fail(
            "parse and the iterator disagree",
            text,
            format!("parse {}\n  iter {}", show(&p), show(&i)),
        );
    }
    let t = vcard4::Vcard::try_from(text).map(|c| vec![c]);
    let first = match vcard4::iter(text, true).next() {
        Some(x) => x.map(|c| vec![c]),
        None => p_empty(),
    };
    if show(&t) != show(&first) {
        return fail(
            "try_from and the iterator disagree",
            text,
            format!("try_from {}\n  iter {}", show(&t), show(&first)),
        );
    }
    Ok(p)
}

fn p_empty() -> Result<Vec<vcard4::Vcard>, vcard4::Error> {
    Err(vcard4::Error::TokenExpected)
}

// ----------------------------------------------------------------------- C12

/// A fault of every kind, alone and in random surroundings.
fn faults(cx: &mut Cx) -> R {
    let kind = (cx.idx % FAULTS as u64) as usize;
    let b = bad(&mut cx.rng, kind);
    let text = minimal(&b.line);
    cx.input = text.clone();
    let alone = expect_error("a faulty line", &text, strict_all(&text)?, &b)?;
    cx.seen(&text);
    cx.count(&format!("fault {}", b.kind));
    cx.count(&format!("error {}", alone.split(':').next().unwrap_or("")));

    for _ in 0..2 {
        let r = &mut cx.rng;
        let mut lines = Vec::new();
        let st = wire::Style::random(r);
        if r.chance(1, 4) {
            let c = gen::card(r);
            lines.extend(wire::card_lines(r, &st, &c));
        }
        let mut c = gen::card(r);
        // the fault shall not be a second occurrence
        if gen::SINGLE.contains(&&b.name[..]) {
            let group = c.iter().any(|p| p.name == "MEMBER");
            c.retain(|p| p.name != b.name);
            if b.name == "KIND" && group {
                c.retain(|p| p.name != "MEMBER");
            }
        }
        let mut l = wire::card_lines(r, &st, &c);
        let at = r.range(2, l.len() as i64 - 1) as usize;
        l.insert(at, b.line.clone());
        lines.extend(l);
        if r.chance(1, 4) {
            let c = gen::card(r);
            lines.extend(wire::card_lines(r, &st, &c));
        }
        let text = wire::physical(r, &st, &lines);
        cx.input = text.clone();
        let there = expect_error(
            "a faulty line among others",
            &text,
            vcard4::parse(&text),
            &b,
        )?;
        if there != alone {
            return fail(
                "the error depends on the surroundings",
                &text,
                format!("line {:?}\n  alone: {alone}\n  here: {there}", b.line),
            );
        }
        cx.seen(&text);
    }
    Ok(())
}

/// Every single fault inserted into every property: the cross product of
/// parameters that only some properties take.
fn cross(cx: &mut Cx) -> R {
    let n = FIELDS.len() as u64 + 1;
    let i = (cx.idx % n) as usize;
    let which = (cx.idx / n) as usize;
    let r = &mut cx.rng;
    let name = if i < FIELDS.len() {
        FIELDS[i].to_string()
    } else {
        "X-ABC".to_string()
    };
    const PARAMS: [(&str, &[&str]); 11] = [
        ("TYPE=home", &["TypeParameter"]),
        ("LABEL=a", &["InvalidLabel"]),
        ("PREF=0", &["PrefOutOfRange"]),
        ("PREF=101", &["PrefOutOfRange"]),
        ("PREF=x", &["ParseInt"]),
        ("PID=x", &["ParseInt", "InvalidPid"]),
        ("GEO=geo:1", &["NotQuoted"]),
        ("GEO=\"x\"", &["UriParse"]),
        ("CHARSET=x", &["CharsetParameter"]),
        ("VALUE=x", &["UnknownValueType"]),
        ("ROLE=x", &["UnknownParameter"]),
    ];
    let (param, errs) = PARAMS[which];
    let ok = match which {
        0 => gen::type_allowed(&name) || gen::is_ext(&name),
        1 => name == "ADR",
        _ => false,
    };
    let p = Parts::of(r, &name, 0);
    let line = p.with(r, param).line();
    let text = if name == "MEMBER" {
        plain(&[
            "BEGIN:VCARD".into(),
            "VERSION:4.0".into(),
            "KIND:group".into(),
            "FN:x".into(),
            line.clone(),
            "END:VCARD".into(),
        ])
    } else {
        minimal(&line)
    };
    cx.input = text.clone();
    let got = strict_all(&text)?;
    if ok {
        if let Err(e) = got {
            return fail(
                "an allowed parameter is rejected",
                &text,
                format!("line {line:?}: {}", shown(&e)),
            );
        }
    } else {
        let b = Bad {
            kind: "cross product",
            line,
            errs,
            says: None,
            name,
        };
        expect_error("a parameter that is not allowed", &text, got, &b)?;
    }
    cx.seen(&text);
    Ok(())
}

/// Valid lines next to the faulty ones.
fn near(cx: &mut Cx) -> R {
    const LINES: &[&str] = &[
        "NOTE;PREF=1:x",
        "NOTE;PREF=100:x",
        "NOTE;PREF=\"50\":x",
        "NOTE;pref=99:x",
        "NOTE;PID=1:x",
        "NOTE;PID=1.1:x",
        "NOTE;PID=1.2,3,4.5:x",
        "NOTE;PID=\"1.1,2\":x",
        "NOTE;PID=18446744073709551615:x",
        "ADR;LABEL=abc:;;;;;;",
        "ADR;LABEL=\"a:b;c,d\":;;;;;;x",
        "a.adr;label=x:;;;;;;",
        "ADR;GEO=\"geo:1,2\":;;;;;;",
        "NOTE;GEO=\"geo:1,2\":x",
        "TEL;GEO=\"geo:1,2\":1",
        "ADR;TZ=\"a:b\":;;;;;;",
        "NOTE;TZ=+0100:x",
        "NOTE;TZ=-05:x",
        "NOTE;TZ=Z:x",
        "NOTE;TZ=a/b:x",
        "NOTE;CHARSET=UTF-8:x",
        "NOTE;CHARSET=\"UTF-8\":x",
        "NOTE:a\tb",
        "NOTE;ALTID=a\tb:x",
        "NOTE:\u{80}\u{85}\u{a0}x",
        "NOTE:",
        "NOTE: ",
        "NOTE:FN:x",
        "NOTE:END:VCARD",
        "NOTE:BEGIN:VCARD",
        "NOTE:VERSION:4.0",
        "NOTE:\"",
        "NOTE:\"a",
        "NOTE:a\"b\"c",
        "NOTE:;",
        "NOTE:=",
        "NOTE:\\",
        "NOTE:\\x",
        "NOTE;ALTID=:x",
        "NOTE;ALTID=\"\":x",
        "NOTE;ALTID=\"a:b;c,d\":x",
        "NOTE;ALTID=a=b:x",
        "NOTE;ALTID=a,b:x",
        "NOTE;ALTID=TYPE:x",
        "NOTE;X-A=:x",
        "NOTE;X-A=1;X-A=2:x",
        "NOTE;ENCODING=b:x",
        "NOTE;encoding=QUOTED-PRINTABLE:x",
        "NOTE;TYPE=home:x",
        "NOTE;TYPE=HOME,work:x",
        "NOTE;TYPE=home;TYPE=work:x",
        "NOTE;TYPE=x-foo:x",
        "TEL;TYPE=\"voice,home\":1",
        "RELATED;TYPE=friend,co-worker:urn:x:y",
        "X-A;TYPE=home:x",
        "X-A;VALUE=text:x",
        "x-a;value=TEXT:x",
        "KIND:individual",
        "KIND:group",
        "KIND:org",
        "KIND:location",
        "GENDER:",
        "GENDER:M",
        "GENDER:F",
        "GENDER:O",
        "GENDER:N",
        "GENDER:U",
        "GENDER:;x",
        "GENDER:M;",
        "GENDER:O;a\\;b",
        "ADR:;;;;;;",
        "ADR:a;b;c;d;e;f;g",
        "ADR:a\\;b;;;;;;",
        "CLIENTPIDMAP:1;urn:x:y",
        "CLIENTPIDMAP:18446744073709551615;urn:x:y",
        "CLIENTPIDMAP;PREF=1:2;urn:x:y",
        "BDAY:20000229",
        "BDAY:19960415",
        "BDAY:--0415",
        "BDAY:---15",
        "BDAY:1985-04",
        "BDAY:1985",
        "BDAY:19531015T231000Z",
        "BDAY:T102200",
        "BDAY:T1022",
        "BDAY:T10",
        "BDAY:T102200-0800",
        "BDAY;VALUE=text:circa 1800",
        "BDAY;VALUE=date-and-or-time:19960415",
        "BDAY:--0229",
        "ANNIVERSARY:00000101",
        "ANNIVERSARY:99991231T235959Z",
        "BDAY:19960229T000000-2359",
        "REV:19951031T222710Z",
        "REV:19951031T222710",
        "REV:19951031T222710+0100",
        "REV:19951031T222710-01",
        "REV;VALUE=timestamp:20000229T235959Z",
        "TZ:abc",
        "TZ:-0500",
        "TZ;VALUE=utc-offset:-0500",
        "TZ;VALUE=utc-offset:Z",
        "TZ;VALUE=utc-offset:+23",
        "TZ;VALUE=uri:urn:x:y",
        "TZ;VALUE=text:urn:x:y",
        "TEL:1",
        "TEL:tel:+1",
        "TEL;VALUE=uri:tel:+1",
        "TEL;VALUE=text:tel:+1",
        "UID:a",
        "UID;VALUE=uri:urn:x:y",
        "KEY:abc",
        "KEY;VALUE=text:abc",
        "PHOTO:abc",
        "PHOTO:http://a/b",
        "PHOTO;VALUE=uri:http://a/b",
        "X-A;VALUE=integer:1",
        "X-A;VALUE=integer:-1,0,9223372036854775807,-9223372036854775808",
        "X-A;VALUE=float:1",
        "X-A;VALUE=float:-1.5,0,1e300",
        "X-A;VALUE=boolean:true",
        "X-A;VALUE=boolean:FALSE",
        "X-A;VALUE=date:20000229,--0415",
        "X-A;VALUE=time:102200,1022Z",
        "X-A;VALUE=date-time:19960415T102200Z",
        "X-A;VALUE=utc-offset:-0001",
        "X-A;VALUE=uri:urn:x:y",
        "X-A;VALUE=language-tag:en",
        "SOURCE:a:b",
        "URL:http://[::1]/",
        "IMPP:xmpp:a@b",
        "GEO:geo:1,2;u=3",
        "SOUND:data:,x",
        "LOGO:HTTP://a",
        "FBURL:a+b-c.d:e",
        "CALURI:urn:%41",
        "CALADRURI:mailto:a@b",
        "RELATED:x",
        "LANG:en",
        "LANG;PREF=1:de-CH",
        "ORG:",
        "ORG:a;b;c;d",
        "N:",
        "N:;;;;",
        "N:a;b",
        "CATEGORIES:a,b,c",
        "CATEGORIES:",
        "XML:<a/>",
        "PRODID:x",
        "NICKNAME:a,b",
        "TITLE:x",
        "ROLE:x",
        "EMAIL:x",
        "FN:y",
        "a-1.NOTE:x",
        "1.NOTE:x",
        "-.NOTE:x",
        "a.X-b:x",
        "X-1:x",
        "X--:x",
        "tz.TZ:x",
        "geo.GEO:geo:1,2",
        "FN.FN:x",
        "a.TZ;VALUE=text:x",
        "NOTE.X-NOTE:x",
        "x-a.x-b:x",
    ];
    let line = LINES[(cx.idx as usize) % LINES.len()];
    let mut text = minimal(line);
    if cx.idx as usize >= LINES.len() {
        let r = &mut cx.rng;
        let mut c = gen::card(r);
        let name = Parts::name_of(line);
        c.retain(|p| p.name != name || !gen::SINGLE.contains(&&name[..]));
        if name == "KIND" {
            c.retain(|p| p.name != "MEMBER");
        }
        let st = wire::Style::random(r);
        let mut l = wire::card_lines(r, &st, &c);
        let at = r.range(2, l.len() as i64 - 1) as usize;
        l.insert(at, line.to_string());
        text = wire::physical(r, &st, &l);
    }
    cx.input = text.clone();
    match strict_all(&text)? {
        Err(e) => {
            return fail(
                "a valid line is rejected",
                &text,
                format!("line {line:?}: {}", shown(&e)),
            )
        }
        Ok(c) => {
            let mut alone = vcard4::parse(&minimal(line))
                .map(|c| dump_all(&c))
                .unwrap_or_default()
                .concat();
            // the property itself is the same wherever it stands
            let all = dump_all(&c).concat();
            alone.retain(|p| p.name != "FN" || !matches!(&p.val, MVal::Text(t) if t == "x"));
            for p in &alone {
                if !all.contains(p) {
                    return fail(
                        "a valid line is read differently among others",
                        &text,
                        format!("line {line:?}\n  alone {p:?}\n  here {all:?}"),
                    );
                }
            }
        }
    }
    match vcard4::parse_loose(&text) {
        Ok(c) => {
            let s = vcard4::parse(&text).map(|c| dump_all(&c));
            if Ok(dump_all(&c)) != s.map_err(|_| ()) {
                return fail(
                    "loose and strict differ on a valid card",
                    &text,
                    String::new(),
                );
            }
        }
        Err(e) => return fail("a valid line is rejected in loose mode", &text, shown(&e)),
    }
    cx.seen(&text);
    cx.count("valid near misses");
    Ok(())
}

impl Parts {
    fn name_of(line: &str) -> String {
        let head = line.split([';', ':']).next().unwrap_or("");
        head.rsplit('.').next().unwrap_or("").to_ascii_uppercase()
    }
}

/// Input that ends in the middle of a line or card.
fn truncated(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let c = gen::card(r);
    let st = wire::Style {
        folds: false,
        endings: false,
        ..wire::Style::random(r)
    };
    let lines = wire::card_lines(r, &st, &c);
    let text = plain(&lines);
    let end = text.len() - "END:VCARD\r\n".len();
    // every prefix that lacks the END line
    let cuts: Vec<usize> = if end < 400 {
        (1..end + 9).collect()
    } else {
        (0..300)
            .map(|_| r.range(1, end as i64 + 8) as usize)
            .collect()
    };
    for n in cuts {
        if !text.is_char_boundary(n) {
            continue;
        }
        let t = &text[..n];
        cx.input = t.to_string();
        match strict_all(t)? {
            Ok(_) => {
                return fail(
                    "a card without its end is accepted",
                    t,
                    format!("prefix of {n} bytes of {text:?}"),
                )
            }
            Err(e) => {
                cx.count(&format!("truncated {}", variant(&e)));
                // cut inside the value of a property line
                let last = t.rsplit('\n').next().unwrap_or("");
                let complete = text[..end].lines().find(|l| !last.is_empty() && *l == last);
                if complete.is_some()
                    && lines[2..lines.len() - 1].iter().any(|l| l == last)
                    && variant(&e) != "InvalidPropertyValue"
                    && variant(&e) != "TokenExpected"
                {
                    return fail("unterminated value: wrong error", t, shown(&e));
                }
            }
        }
        // loose mode does not repair the envelope
        if let Ok(c) = vcard4::parse_loose(t) {
            return fail(
                "a card without its end is accepted in loose mode",
                t,
                format!("{:?}", dump_all(&c)),
            );
        }
        cx.seen(t);
    }
    Ok(())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "a line with exactly one fault of a known kind is put into a minimal card and into random cards; a case is non-trivial when the error variant (and the culprit named in its message) was compared with the one documented for the fault, or a valid near miss was accepted",
        fams: vec![
            fam("faults", faults, 40_000, 1_500_000),
            exhaustive("cross", cross, (FIELDS.len() as u64 + 1) * 11),
            exhaustive("sizes", sizes::faults, sizes::FAULTS),
            fam("near", near, 2_000, 40_000),
            fam("truncated", truncated, 120, 6_000),
            fam("reference", refer::refuse, 40_000, 3_000_000),
        ],
        must: vec![
            "error ControlCharacter", "error DelimiterExpected", "error IncorrectToken",
            "error UnknownParameter", "error InvalidLabel", "error TypeParameter",
            "error PrefOutOfRange", "error ParseInt", "error NotQuoted", "error UriParse",
            "error CharsetParameter", "error UnknownValueType", "error UnsupportedValueType",
            "error ParseFloat", "error InvalidBoolean", "error UnknownSex", "error UnknownKind",
            "error InvalidAddress", "error ClientPidMapPidNotAllowed", "error VersionMisplaced",
        ],
    }
}

// ----------------------------------------------------------------------- C10

/// Faulty lines of every kind anywhere in cards: loose parsing gives the
/// good lines.
fn dropped(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut cards = gen::cards(r);
    let st = wire::Style::random(r);
    let mut lines = Vec::new();
    let mut kinds = Vec::new();
    let mut strict_bad = false;
    for c in &mut cards {
        // model order is line order
        let mut l = wire::card_lines(r, &st, c);
        let good = l.clone();
        let n = match r.below(6) {
            0 => 0,
            1..=3 => 1,
            4 => r.range(2, 4) as usize,
            _ => r.range(5, 20) as usize,
        };
        for _ in 0..n {
            strict_bad = true;
            if r.chance(1, 6) {
                // a second occurrence of a property that is allowed once
                let single: Vec<usize> = (0..c.len())
                    .filter(|i| gen::SINGLE.contains(&&c[*i].name[..]))
                    .collect();
                if !single.is_empty() {
                    let k = *r.of(&single);
                    let name = c[k].name.clone();
                    let at = l
                        .iter()
                        .position(|x| *x == good[k + 2])
                        .unwrap_or(l.len() - 2);
                    let p = gen::prop(r, &name, 10);
                    let i = r.range(at as i64 + 1, l.len() as i64 - 1) as usize;
                    l.insert(i, wire::line(r, &st, &p));
                    kinds.push("second occurrence");
                    continue;
                }
            }
            if r.chance(1, 30) {
                let i = r.range(2, l.len() as i64 - 1) as usize;
                l.insert(i, String::new());
                kinds.push("empty line");
                continue;
            }
            let kind = r_kind(r);
            let b = bad(r, kind);
            let i = r.range(2, l.len() as i64 - 1) as usize;
            l.insert(i, b.line);
            kinds.push(b.kind);
        }
        lines.extend(l);
    }
    let text = wire::physical(r, &st, &lines);
    cx.input = text.clone();
    let expected = sorted_all(&cards);
    match vcard4::parse_loose(&text) {
        Ok(got) => {
            if let Some(d) = diff(&expected, &dump_all(&got)) {
                return fail(
                    "loose parsing does not give the good lines",
                    &text,
                    format!("faults: {kinds:?}\n  {d}"),
                );
            }
        }
        Err(e) => {
            return fail(
                "loose parsing failed",
                &text,
                format!("faults: {kinds:?}\n  {}", shown(&e)),
            )
        }
    }
    let it: Result<Vec<_>, _> = vcard4::iter(&text, false).collect();
    match it {
        Ok(got) => {
            if let Some(d) = diff(&expected, &dump_all(&got)) {
                return fail(
                    "loose iteration does not give the good lines",
                    &text,
                    format!("faults: {kinds:?}\n  {d}"),
                );
            }
        }
        Err(e) => return fail("loose iteration failed", &text, shown(&e)),
    }
    match vcard4::parse(&text) {
        Ok(_) if strict_bad => {
            return fail(
                "strict parsing accepts faulty lines",
                &text,
                format!("faults: {kinds:?}"),
            )
        }
        Err(e) if !strict_bad => {
            return fail("strict parsing rejects good cards", &text, shown(&e))
        }
        _ => {}
    }
    for k in kinds {
        cx.count(&format!("fault {k}"));
    }
    count_props(cx, &cards);
    cx.seen(&text);
    Ok(())
}

/// Any kind that loose parsing drops.
fn r_kind(r: &mut Rng) -> usize {
    r.below(FAULTS - 1)
}

/// One faulty line before, between and after every two neighbours.
fn each_kind(cx: &mut Cx) -> R {
    let kind = (cx.idx % (FAULTS as u64 - 1)) as usize;
    let r = &mut cx.rng;
    let b = bad(r, kind);
    let mut c = Vec::new();
    for _ in 0..r.range(1, 3) {
        c.push(gen::any_prop(r, 10));
    }
    if !b.name.is_empty() && FIELDS.contains(&&b.name[..]) && b.name != "MEMBER" {
        // a good line of the same name
        c.push(gen::prop(r, &b.name, 0));
    }
    let c = gen::make_valid(r, c);
    let st = wire::Style {
        folds: false,
        ..wire::Style::random(r)
    };
    let base = wire::card_lines(r, &st, &c);
    for at in 2..base.len() {
        let r = &mut cx.rng;
        let mut l = base.clone();
        l.insert(at, b.line.clone());
        if r.chance(1, 3) {
            let again = bad(r, kind);
            l.insert(at, again.line);
        }
        let text = wire::physical(r, &st, &l);
        cx.input = text.clone();
        match vcard4::parse_loose(&text) {
            Ok(got) => {
                if let Some(d) = diff(&[sorted(c.clone())], &dump_all(&got)) {
                    return fail(
                        "loose parsing does not give the good lines",
                        &text,
                        format!("fault {} in {:?}\n  {d}", b.kind, b.line),
                    );
                }
            }
            Err(e) => {
                return fail(
                    "loose parsing failed",
                    &text,
                    format!("fault {} in {:?}\n  {}", b.kind, b.line, shown(&e)),
                )
            }
        }
        cx.seen(&text);
    }
    cx.count(&format!("fault {}", b.kind));
    Ok(())
}

/// An unknown VALUE type counts for nothing.
fn tolerated(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = any_name(r);
    let p = Parts::of(r, &n, 20).without("VALUE");
    let v = *r.of(&[
        "foo",
        "",
        "textt",
        "x-a",
        "date time",
        "\"vcard\"",
        "uri2",
        "text,uri",
        "TEX",
        "phone-number",
    ]);
    let clean = p.line();
    let key = wire::recase(r, "VALUE");
    let dirty = p.with(r, &format!("{key}={v}")).line();
    let wrap = |l: &str| {
        let mut s = vec![
            "BEGIN:VCARD".to_string(),
            "VERSION:4.0".into(),
            "FN:x".into(),
        ];
        if n == "MEMBER" {
            s.push("KIND:group".into());
        }
        s.push(l.into());
        s.push("NOTE:after".into());
        s.push("END:VCARD".into());
        plain(&s)
    };
    let (clean, dirty) = (wrap(&clean), wrap(&dirty));
    cx.input = dirty.clone();
    let show = |t: &str| match vcard4::parse_loose(t) {
        Ok(c) => format!("{:?}", dump_all(&c)),
        Err(e) => shown(&e),
    };
    let (a, b) = (show(&clean), show(&dirty));
    if a != b {
        return fail(
            "an unknown VALUE type is not ignored in loose mode",
            &dirty,
            format!("without it: {a}\n  with it:   {b}"),
        );
    }
    if vcard4::parse(&dirty).is_ok() {
        return fail(
            "an unknown VALUE type is accepted in strict mode",
            &dirty,
            "",
        );
    }
    cx.seen(&dirty);
    cx.count("unknown VALUE tolerated");
    Ok(())
}

/// On what strict parsing accepts, loose parsing is the same; and loose
/// parsing never invents properties: hostile input.
fn agree(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let text = match r.below(3) {
        0 => crate::mutate::seed(r),
        1 => crate::mutate::soup(r),
        _ => crate::mutate::mutated(r),
    };
    cx.input = text.clone();
    if let Ok(s) = vcard4::parse(&text) {
        match vcard4::parse_loose(&text) {
            Ok(l) if dump_all(&l) == dump_all(&s) => {}
            // NaN
            Ok(l) if format!("{:?}", dump_all(&l)) == format!("{:?}", dump_all(&s)) => {}
            Ok(l) => {
                return fail(
                    "loose differs from strict on an accepted input",
                    &text,
                    diff(&dump_all(&s), &dump_all(&l)).unwrap_or_default(),
                )
            }
            Err(e) => return fail("loose rejects what strict accepts", &text, shown(&e)),
        }
        cx.count("accepted by strict parsing");
        cx.seen(&text);
    } else if let Ok(l) = vcard4::parse_loose(&text) {
        // line by line: loose == strict on the text without the lines
        // that are in error by themselves or against the lines kept
        loose_by_lines(cx, &text, &l)?;
    }
    Ok(())
}

/// Rebuild a strict input by trying one line at a time.
fn loose_by_lines(cx: &mut Cx, text: &str, got: &[vcard4::Vcard]) -> R {
    let Some(unfolded) = unfold(text) else {
        return Ok(());
    };
    if unfolded.len() > 4000 {
        return Ok(());
    }
    let mut out: Vec<String> = Vec::new();
    let mut body: Option<Vec<String>> = None;
    let mut cards = 0;
    for l in unfolded.split_inclusive('\n') {
        let bare = l.trim_end_matches(['\r', '\n']).to_ascii_uppercase();
        match &mut body {
            None => {
                if bare == "BEGIN:VCARD" {
                    body = Some(vec![l.to_string()]);
                } else if !bare.is_empty() {
                    return Ok(());
                }
            }
            Some(b) if b.len() == 1 => b.push(l.to_string()),
            Some(b) => {
                if bare.starts_with("END:VCARD") {
                    if bare != "END:VCARD" {
                        return Ok(());
                    }
                    b.push(l.to_string());
                    out.append(b);
                    body = None;
                    cards += 1;
                    continue;
                }
                if bare.starts_with("BEGIN:VCARD") {
                    return Ok(());
                }
                if l.starts_with([' ', '\t']) {
                    // in error here, but a fold after the line kept last
                    continue;
                }
                // does strict parsing accept the line after those kept?
                // (FN and MEMBER rules are met by an extra line or two)
                let mut t = b.concat();
                t.push_str(l);
                if !l.ends_with('\n') {
                    return Ok(());
                }
                t.push_str("FN:extra\r\nEND:VCARD\r\n");
                match vcard4::parse(&t) {
                    Ok(_) => b.push(l.to_string()),
                    Err(e) if variant(&e) == "MemberRequiresGroup" => b.push(l.to_string()),
                    Err(e) if variant(&e) == "UnknownValueType" => return Ok(()),
                    Err(_) => {}
                }
            }
        }
    }
    if cards == 0 {
        return Ok(());
    }
    let clean = out.concat();
    cx.input = text.to_string();
    match vcard4::parse(&clean) {
        Ok(s) => {
            let (s, g) = (dump_all(&s), dump_all(got));
            if format!("{s:?}") != format!("{g:?}") {
                return fail(
                    "loose parsing differs from strict parsing of the good lines",
                    text,
                    format!(
                        "good lines: {clean:?}\n  {}",
                        diff(&s, &g).unwrap_or_default()
                    ),
                );
            }
        }
        Err(e) => {
            return fail(
                "loose parsing accepts what has no good reading",
                text,
                format!("good lines: {clean:?}: {}", shown(&e)),
            )
        }
    }
    cx.count("hostile inputs compared line by line");
    cx.seen(text);
    Ok(())
}

/// The reference unfolding.
fn unfold(s: &str) -> Option<String> {
    let mut o = String::with_capacity(s.len());
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let nl = if b[i] == '\n' {
            1
        } else if b[i] == '\r' && b.get(i + 1) == Some(&'\n') {
            2
        } else {
            0
        };
        if nl > 0 && matches!(b.get(i + nl), Some(' ') | Some('\t')) {
            i += nl + 1;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    // a fold between CR and LF: not worth deciding here
    if o.contains('\r') && o.replace("\r\n", "").contains('\r') {
        return None;
    }
    Some(o)
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "erroneous lines of 36 kinds are inserted into generated cards; a case is non-trivial when the cards from parse_loose and the loose iterator were compared with the model of the good lines",
        fams: vec![
            exhaustive("sizes", sizes::faults, sizes::FAULTS),
            fam("each kind", each_kind, 8_000, 300_000),
            fam("dropped", dropped, 30_000, 1_500_000),
            fam("tolerated", tolerated, 6_000, 200_000),
            fam("agree", agree, 20_000, 1_500_000),
            fam("reference", refer::loose, 40_000, 3_000_000),
        ],
        must: vec![
            "fault second occurrence", "fault unknown parameter", "fault URI value",
            "unknown VALUE tolerated", "hostile inputs compared line by line",
        ],
    }
}

// ----------------------------------------------------------------------- C11

/// The rules, from the model.
fn violated(card: &[MProp]) -> Vec<(&'static str, Option<String>)> {
    let mut v = Vec::new();
    for s in gen::SINGLE {
        if card.iter().filter(|p| p.name == s).count() > 1 {
            v.push(("OnlyOnce", Some(s.to_string())));
        }
    }
    if !card.iter().any(|p| p.name == "FN") {
        v.push(("NoFormattedName", None));
    }
    let member = card.iter().any(|p| p.name == "MEMBER");
    let group = card
        .iter()
        .find(|p| p.name == "KIND")
        .is_some_and(|p| p.val == MVal::Kind("group"));
    if member && !group {
        v.push(("MemberRequiresGroup", None));
    }
    v
}

fn check_rules(cx: &mut Cx, c: &[MProp], st: &wire::Style, around: bool) -> R {
    let r = &mut cx.rng;
    let mut lines = wire::card_lines(r, st, c);
    if around {
        let before = gen::card(r);
        let mut l = wire::card_lines(r, st, &before);
        l.extend(lines);
        lines = l;
        let after = gen::card(r);
        lines.extend(wire::card_lines(r, st, &after));
    }
    let text = wire::physical(r, st, &lines);
    cx.input = text.clone();
    let v = violated(c);
    match strict_all(&text)? {
        Ok(got) => {
            if !v.is_empty() {
                return fail(
                    "a card that breaks the rules is accepted",
                    &text,
                    format!("{v:?}"),
                );
            }
            if !around {
                if let Some(d) = diff(&[sorted(c.to_vec())], &dump_all(&got)) {
                    return fail("parsed card differs from the one written", &text, d);
                }
            }
            cx.count("accepted");
        }
        Err(e) => {
            let got = variant(&e);
            let hit = v.iter().find(|(k, n)| {
                *k == got
                    && n.as_ref()
                        .is_none_or(|n| e.to_string().contains(&format!("'{n}'")))
            });
            if hit.is_none() {
                return fail(
                    "wrong verdict on the rules",
                    &text,
                    format!("rules broken {v:?}, got {}", shown(&e)),
                );
            }
            cx.count(&format!("rejected {got}"));
        }
    }
    // an item of its own in a stream
    if around {
        let items: Vec<bool> = vcard4::iter(&text, true).map(|x| x.is_ok()).collect();
        if items != [true, v.is_empty(), true] {
            return fail("wrong items in a stream", &text, format!("{items:?} {v:?}"));
        }
    }
    // loose parsing keeps the first of what may not repeat, and gives up on
    // the same cards otherwise
    let mut seen: Vec<&str> = Vec::new();
    let kept: MCard = c
        .iter()
        .filter(|p| {
            let again = seen.contains(&&p.name[..]);
            seen.push(&p.name);
            !(again && gen::SINGLE.contains(&&p.name[..]))
        })
        .cloned()
        .collect();
    let v = violated(&kept);
    match vcard4::parse_loose(&text) {
        Ok(got) => {
            if !v.is_empty() {
                return fail(
                    "a card that breaks the rules is accepted in loose mode",
                    &text,
                    format!("{v:?}"),
                );
            }
            if got.len() != if around { 3 } else { 1 } {
                return fail("loose parsing loses cards", &text, got.len().to_string());
            }
            let i = usize::from(around);
            if let Some(d) = diff(&[sorted(kept)], &dump_all(&got[i..i + 1])) {
                return fail("loosely parsed card differs", &text, d);
            }
            cx.count("accepted in loose mode");
        }
        Err(e) => {
            let got = variant(&e);
            if !v.iter().any(|(k, _)| *k == got) {
                return fail(
                    "wrong verdict on the rules in loose mode",
                    &text,
                    format!("rules broken {v:?}, got {}", shown(&e)),
                );
            }
            cx.count("rejected in loose mode");
        }
    }
    let items: Vec<bool> = vcard4::iter(&text, false).map(|x| x.is_ok()).collect();
    let want = if around {
        vec![true, v.is_empty(), true]
    } else {
        vec![v.is_empty()]
    };
    if items != want {
        return fail(
            "wrong items in a loose stream",
            &text,
            format!("{items:?} {v:?}"),
        );
    }
    cx.seen(&text);
    Ok(())
}

/// Multisets of properties in random order.
fn multisets(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let density = *r.of(&[0, 0, 15]);
    let mut c: MCard = Vec::new();
    let fns = *r.of(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..fns {
        c.push(gen::prop(r, "FN", density));
    }
    // a single property zero, one or several times
    for _ in 0..r.below(4) {
        let n = r.pick(&gen::SINGLE);
        let k = *r.of(&[1, 1, 1, 1, 2, 3]);
        let p = gen::prop(r, n, density);
        for _ in 0..k {
            if r.bool() {
                c.push(p.clone());
            } else {
                c.push(gen::prop(r, n, density));
            }
        }
    }
    for _ in 0..r.below(4) {
        let n = loop {
            let n = r.pick(&FIELDS);
            if !gen::SINGLE.contains(&n) && n != "MEMBER" && n != "FN" {
                break n;
            }
        };
        for _ in 0..r.range(1, 5) {
            c.push(gen::prop(r, n, density));
        }
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            c.push(gen::prop(r, "MEMBER", density));
        }
        match r.below(4) {
            0 => {}
            1 => c.push(gen::prop(r, "KIND", density)),
            _ => {
                let mut k = gen::prop(r, "KIND", density);
                k.val = MVal::Kind("group");
                c.push(k);
            }
        }
    }
    r.shuffle(&mut c);
    let st = wire::Style::random(r);
    let around = r.chance(1, 4);
    check_rules(cx, &c, &st, around)
}

/// Every single property twice: every spelling of both, every distance.
fn twice(cx: &mut Cx) -> R {
    let n = gen::SINGLE.len() as u64;
    let name = gen::SINGLE[(cx.idx % n) as usize];
    let bits = cx.idx / n;
    let r = &mut cx.rng;
    let mk = |grp: bool, par: bool, r: &mut Rng| {
        let mut p = gen::prop(r, name, if par { 40 } else { 0 });
        p.group = if grp { Some(gen::group(r)) } else { None };
        if name == "KIND" {
            p.val = MVal::Kind("group");
        }
        p
    };
    let a = mk(bits & 1 != 0, bits & 2 != 0, r);
    let b = if bits & 16 != 0 && bits & 3 == (bits >> 2) & 3 {
        a.clone()
    } else {
        mk(bits & 4 != 0, bits & 8 != 0, r)
    };
    let mut c = vec![gen::prop(r, "FN", 0)];
    for _ in 0..r.below(3) {
        let q = gen::prop(
            r,
            *r.clone().of(&["NOTE", "TEL", "X-A", "MEMBER", "TITLE"]),
            0,
        );
        if q.name != "MEMBER" || name == "KIND" {
            c.push(q);
        }
    }
    let i = r.below(c.len() + 1);
    c.insert(i, a);
    let j = r.below(c.len() + 1);
    c.insert(j, b);
    let st = wire::Style {
        case: bits & 32 != 0,
        ..wire::Style::random(r)
    };
    check_rules(cx, &c, &st, false)?;
    cx.count(&format!("twice {name}"));
    // and once is fine, in loose mode the first wins
    let first = c.iter().position(|p| p.name == name).unwrap_or(0);
    let kept: MCard = c
        .iter()
        .enumerate()
        .filter(|(k, p)| p.name != name || *k == first)
        .map(|(_, p)| p.clone())
        .collect();
    check_rules(cx, &kept, &st, false)?;
    let lines = wire::card_lines(&mut cx.rng, &st, &c);
    let text = wire::physical(&mut cx.rng, &st, &lines);
    match vcard4::parse_loose(&text) {
        Ok(got) => match diff(&[sorted(kept)], &dump_all(&got)) {
            Some(d) => fail("loose parsing keeps the wrong occurrence", &text, d),
            None => Ok(()),
        },
        Err(e) => fail(
            "loose parsing rejects a repeated property",
            &text,
            shown(&e),
        ),
    }
}

/// Properties that repeat do so without limit.
fn many(cx: &mut Cx) -> R {
    let n = FIELDS[cx.idx as usize % FIELDS.len()];
    if gen::SINGLE.contains(&n) {
        return Ok(());
    }
    let r = &mut cx.rng;
    let mut c: MCard = (0..r.range(3, 300)).map(|_| gen::prop(r, n, 2)).collect();
    if n != "FN" {
        c.push(gen::prop(r, "FN", 0));
    }
    if n == "MEMBER" {
        let mut k = gen::prop(r, "KIND", 0);
        k.val = MVal::Kind("group");
        let i = r.below(c.len() + 1);
        c.insert(i, k);
    }
    let st = wire::Style {
        folds: false,
        ..wire::Style::random(r)
    };
    check_rules(cx, &c, &st, false)
}

/// validate() on cards built in memory: exhaustive over the FN count,
/// KIND and the number of members, with everything else at random.
fn validate(cx: &mut Cx) -> R {
    let fns = cx.idx % 4;
    let kind = (cx.idx / 4 % 5) as usize;
    let members = cx.idx / 20 % 4;
    let r = &mut cx.rng;
    let mut c: MCard = Vec::new();
    for _ in 0..r.below(6) {
        let p = gen::any_prop(r, 10);
        if p.name != "FN" {
            c.push(p);
        }
    }
    let mut c = {
        let mut seen = Vec::new();
        c.retain(|p| {
            let again = seen.contains(&p.name);
            seen.push(p.name.clone());
            !(again && gen::SINGLE.contains(&&p.name[..]))
        });
        c
    };
    for _ in 0..fns {
        c.push(gen::prop(r, "FN", 10));
    }
    if kind < 4 {
        let mut k = gen::prop(r, "KIND", 10);
        k.val = MVal::Kind(KINDS[kind]);
        c.push(k);
    }
    for _ in 0..members {
        c.push(gen::prop(r, "MEMBER", 10));
    }
    let card = match build(&c) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let input = format!("validate {:?}", c);
    cx.input = input.clone();
    let v = violated(&c);
    for card in [card.clone(), card] {
        match card.validate() {
            Ok(()) if v.is_empty() => {}
            Ok(()) => {
                return fail(
                    "validate accepts a card that breaks the rules",
                    &input,
                    format!("{v:?}"),
                )
            }
            Err(e) => {
                if !v.iter().any(|(k, _)| *k == variant(&e)) {
                    return fail(
                        "validate gives the wrong error",
                        &input,
                        format!("{v:?}, got {}", shown(&e)),
                    );
                }
            }
        }
    }
    cx.seen(&input);
    cx.count("validate called");
    Ok(())
}

/// The envelope: BEGIN, VERSION, END.
fn envelope(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let c = gen::card(r);
    let st = wire::Style {
        folds: false,
        ..wire::Style::random(r)
    };
    let mut l = wire::card_lines(r, &st, &c);
    let last = l.len() - 1;
    let (what, errs): (&str, &[&str]) = match cx.idx % 15 {
        0 => {
            l.remove(0);
            ("no BEGIN", &["IncorrectToken"])
        }
        1 => {
            l.remove(1);
            ("no VERSION", &["IncorrectToken"])
        }
        2 => {
            l.remove(last);
            ("no END", &["TokenExpected"])
        }
        3 => {
            l.swap(1, 2);
            ("VERSION second", &["IncorrectToken"])
        }
        4 => {
            let v = l.remove(1);
            let i = r.range(2, l.len() as i64 - 1) as usize;
            l.insert(i, v);
            ("VERSION late", &["IncorrectToken"])
        }
        5 => {
            let i = r.range(2, last as i64) as usize;
            l.insert(
                i,
                wire::recase(r, r.clone().of(&["VERSION:4.0", "VERSION:3.0"])),
            );
            ("VERSION twice", &["VersionMisplaced"])
        }
        6 => {
            l[1] = r
                .of(&[
                    "VERSION:2.1",
                    "VERSION:5.0",
                    "VERSION:4.1",
                    "VERSION:",
                    "VERSION:4",
                    "VERSION;X-A=1:4.0",
                    "VERSION: 4.0",
                    "VERSION:40",
                ])
                .to_string();
            ("wrong VERSION", &["IncorrectToken", "TokenExpected"])
        }
        7 => {
            l[1] = r
                .of(&[
                    "VERSION:4.0 ",
                    "VERSION:4.01",
                    "VERSION:4.0x",
                    "VERSION:3.0.1",
                ])
                .to_string();
            ("VERSION with a tail", &["IncorrectToken"])
        }
        8 => {
            l.swap(0, 1);
            ("VERSION before BEGIN", &["IncorrectToken"])
        }
        9 => {
            l[0] = r
                .of(&[
                    "BEGIN:VCAR",
                    "BEGIN:VEVENT",
                    "BEGIN",
                    "BEGIN :VCARD",
                    "BEGIN:VCARDS",
                    "BEGIN:VCARD ",
                    "BEGINN:VCARD",
                    "a.BEGIN:VCARD",
                ])
                .to_string();
            ("wrong BEGIN", &["IncorrectToken"])
        }
        10 => {
            l[last] = r
                .of(&[
                    "END:VCAR",
                    "END:VEVENT",
                    "END",
                    "END :VCARD",
                    "a.END:VCARD",
                    "NOTE:END:VCARD",
                    "END:VCARDX",
                    "END:VCARD ",
                    "END:VCARD:",
                    "END:VCARD\t",
                    "END:VCARDEND:VCARD",
                ])
                .to_string();
            (
                "wrong END",
                &["TokenExpected", "IncorrectToken", "DelimiterExpected"],
            )
        }
        11 => {
            let i = r.range(2, last as i64) as usize;
            l.insert(i, "BEGIN:VCARD".into());
            ("BEGIN inside", &["IncorrectToken"])
        }
        12 => {
            for _ in 0..r.range(1, 3) {
                l.insert(1, String::new());
            }
            ("empty line after BEGIN", &["IncorrectToken"])
        }
        13 => {
            l.insert(
                1,
                r.of(&[
                    "NOTE:x",
                    "FN:x",
                    "X-A:x",
                    "KIND:group",
                    "BEGIN:VCARD",
                    "END:VCARD",
                    "?",
                ])
                .to_string(),
            );
            ("line before VERSION", &["IncorrectToken"])
        }
        _ => {
            // intact
            ("", &[])
        }
    };
    let text = wire::physical(r, &st, &l);
    cx.input = text.clone();
    match strict_all(&text)? {
        Ok(_) if what.is_empty() => {}
        Ok(got) => {
            return fail(
                format!("a damaged envelope is accepted: {what}"),
                &text,
                format!("{:?}", dump_all(&got)),
            )
        }
        Err(e) => {
            if what.is_empty() || !errs.contains(&&variant(&e)[..]) {
                return fail(
                    format!("wrong verdict on the envelope: {what}"),
                    &text,
                    format!("expected {errs:?}, got {}", shown(&e)),
                );
            }
        }
    }
    // only the second VERSION is a line loose parsing can drop
    let loose = vcard4::parse_loose(&text);
    if cx.idx % 15 == 5 || what.is_empty() {
        match loose {
            Ok(got) => {
                if let Some(d) = diff(&[sorted(c)], &dump_all(&got)) {
                    return fail("loose parsing differs", &text, d);
                }
            }
            Err(e) => return fail("loose parsing failed", &text, shown(&e)),
        }
    } else if let Ok(got) = loose {
        return fail(
            format!("a damaged envelope is accepted in loose mode: {what}"),
            &text,
            format!("{:?}", dump_all(&got)),
        );
    }
    // the same among other cards
    let r = &mut cx.rng;
    let (before, after) = (gen::card(r), gen::card(r));
    let mut all = wire::card_lines(r, &st, &before);
    all.extend(l);
    all.extend(wire::card_lines(r, &st, &after));
    let text = wire::physical(r, &st, &all);
    cx.input = text.clone();
    match strict_all(&text)? {
        Ok(got) if what.is_empty() && got.len() == 3 => {}
        Err(e)
            if !what.is_empty()
                && (errs.contains(&&variant(&e)[..])
                    || what == "no END" && variant(&e) == "IncorrectToken") => {}
        Ok(got) => {
            return fail(
                format!("wrong verdict on an envelope in a stream: {what}"),
                &text,
                format!("{:?}", dump_all(&got)),
            )
        }
        Err(e) => {
            return fail(
                format!("wrong verdict on an envelope in a stream: {what}"),
                &text,
                format!("expected {errs:?}, got {}", shown(&e)),
            )
        }
    }
    cx.seen(&text);
    cx.count(&format!("envelope {what}"));
    Ok(())
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "multisets of properties in random order and spelling; a case is non-trivial when the verdict of parse, iterator, try_from (and validate) was compared with the cardinality rules evaluated on the model",
        fams: vec![
            fam("multisets", multisets, 30_000, 1_500_000),
            exhaustive("sizes", sizes::members, sizes::MEMBERS),
            fam("twice", twice, 8_000, 200_000),
            fam("many", many, 200, 5_000),
            fam("validate", validate, 8_000, 200_000),
            fam("envelope", envelope, 10_000, 300_000),
        ],
        must: vec![
            "accepted", "rejected OnlyOnce", "rejected NoFormattedName",
            "rejected MemberRequiresGroup", "validate called", "envelope VERSION twice",
        ],
    }
}

// ----------------------------------------------------------------------- C13

enum Item {
    Good(MCard),
    /// Reason, and the card loose parsing makes of it.
    Bad(&'static str, Option<MCard>),
}

fn stream_item(r: &mut Rng, st: &wire::Style, lines: &mut Vec<String>, last: bool) -> Item {
    let c = gen::card(r);
    let mut l = wire::card_lines(r, st, &c);
    let n = l.len();
    let pick = if r.bool() { 99 } else { r.below(8) };
    let item = match pick {
        0 | 1 => {
            let kind = r_kind(r);
            let b = bad(r, kind);
            let i = r.range(2, n as i64 - 1) as usize;
            let mut keep = c.clone();
            if gen::SINGLE.contains(&&b.name[..]) {
                keep = c;
            }
            l.insert(i, b.line);
            Item::Bad(b.kind, Some(keep))
        }
        2 => {
            let keep: Vec<usize> = (0..c.len()).filter(|i| c[*i].name != "FN").collect();
            let mut m = vec![l[0].clone(), l[1].clone()];
            m.extend(keep.iter().map(|i| l[i + 2].clone()));
            m.push(l[n - 1].clone());
            l = m;
            Item::Bad("no FN", None)
        }
        3 => {
            let mut c = c;
            c.retain(|p| p.name != "KIND" && p.name != "MEMBER");
            let m = gen::prop(r, "MEMBER", 0);
            let i = r.below(c.len() + 1);
            c.insert(i, m);
            l = wire::card_lines(r, st, &c);
            Item::Bad("member without group", None)
        }
        4 => {
            l.remove(1);
            Item::Bad("no VERSION", None)
        }
        5 => {
            l.pop();
            // cut the last line too, but never so that it is folded with
            // what follows
            if !last && r.bool() && l.len() > 3 {
                l.truncate(r.range(2, l.len() as i64) as usize);
            }
            Item::Bad("no END", None)
        }
        6 => {
            l.truncate(1);
            Item::Bad("BEGIN alone", None)
        }
        7 => {
            l = vec![
                "BEGIN:VCARD".into(),
                "VERSION:2.1".into(),
                "N:a;b".into(),
                "TEL;HOME:1".into(),
                "END:VCARD".into(),
            ];
            Item::Bad("version 2.1", None)
        }
        _ => Item::Good(c),
    };
    lines.extend(l);
    item
}

fn streams(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = wire::Style::random(r);
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => r.range(2, 5) as usize,
        _ => r.range(6, 40) as usize,
    };
    let mut lines = Vec::new();
    let mut items = Vec::new();
    let blank = |r: &mut Rng, l: &mut Vec<String>| {
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 3) {
                l.push(String::new());
            }
        }
    };
    blank(r, &mut lines);
    for k in 0..n {
        items.push(stream_item(r, &st, &mut lines, k + 1 == n));
        blank(r, &mut lines);
    }
    let mut text = wire::physical(r, &st, &lines);
    if r.chance(1, 4) {
        while text.ends_with(['\r', '\n']) {
            text.pop();
        }
        cx.count("no final line ending");
    }
    cx.input = text.clone();
    let names: Vec<&str> = items
        .iter()
        .map(|i| match i {
            Item::Good(_) => "good",
            Item::Bad(w, _) => *w,
        })
        .collect();

    for strict in [true, false] {
        let mut it = vcard4::iter(&text, strict);
        let mut got: Vec<Result<vcard4::Vcard, vcard4::Error>> = Vec::new();
        while let Some(x) = it.next() {
            got.push(x);
            if got.len() > items.len() + 3 {
                break;
            }
        }
        for _ in 0..5 {
            if it.next().is_some() {
                return fail(
                    "an item after the end",
                    &text,
                    format!("strict {strict} {names:?}"),
                );
            }
        }
        let show: Vec<String> = got
            .iter()
            .map(|x| match x {
                Ok(_) => "Ok".to_string(),
                Err(e) => shown(e),
            })
            .collect();
        if got.len() != items.len() {
            return fail(
                "wrong number of items",
                &text,
                format!("strict {strict}\n  stream {names:?}\n  items {show:?}"),
            );
        }
        for (k, (want, have)) in items.iter().zip(&got).enumerate() {
            let want = match want {
                Item::Good(c) => Some(c),
                Item::Bad(_, Some(c)) if !strict => Some(c),
                Item::Bad(..) => None,
            };
            match (want, have) {
                (None, Err(_)) => {}
                (Some(c), Ok(h)) => {
                    if let Some(d) = diff(&[sorted(c.clone())], &[dump(h)]) {
                        // a faulty line may hide in a duplicate
                        return fail(
                            "an item differs from its card",
                            &text,
                            format!("strict {strict} item {k} of {names:?}\n  {d}"),
                        );
                    }
                }
                _ => {
                    return fail(
                        "wrong verdict on an item",
                        &text,
                        format!("strict {strict} item {k}\n  stream {names:?}\n  items {show:?}"),
                    )
                }
            }
        }
        // all or nothing
        let all = if strict {
            vcard4::parse(&text)
        } else {
            vcard4::parse_loose(&text)
        };
        let first = got.iter().find_map(|x| x.as_ref().err());
        match (all, first) {
            (Ok(c), None) if !got.is_empty() => {
                let g: Vec<MCard> = got.iter().flatten().map(dump).collect();
                if let Some(d) = diff(&g, &dump_all(&c)) {
                    return fail("parse and the iterator give different cards", &text, d);
                }
            }
            (Err(e), Some(f)) => {
                if shown(&e) != shown(f) {
                    return fail(
                        "parse fails with another error than the first item",
                        &text,
                        format!("strict {strict} parse {}\n  items {show:?}", shown(&e)),
                    );
                }
            }
            (Err(_), None) if got.is_empty() => {}
            (x, _) => {
                return fail(
                    "parse and the iterator disagree",
                    &text,
                    format!("strict {strict} parse ok: {}, items {show:?}", x.is_ok()),
                )
            }
        }
        if strict {
            let t = vcard4::Vcard::try_from(&text[..]);
            let same = match (&t, got.first()) {
                (Ok(a), Some(Ok(b))) => dump(a) == dump(b),
                (Err(a), Some(Err(b))) => shown(a) == shown(b),
                (Err(_), None) => true,
                _ => false,
            };
            if !same {
                return fail(
                    "try_from is not the first item",
                    &text,
                    format!(
                        "{:?} vs {show:?}",
                        t.map(|c| dump(&c)).map_err(|e| shown(&e))
                    ),
                );
            }
        }
    }
    for n in names {
        cx.count(&format!("item {n}"));
    }
    cx.seen(&text);
    Ok(())
}

/// Cards keep what parse gives for them alone, whatever stands between.
fn isolation(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // lines that look like the beginning or the end of a card only to a
    // careless reader
    let odd = [
        "NOTE:BEGIN:VCARD",
        "NOTE:END:VCARD",
        "NOTE:\\nBEGIN:VCARD",
        "NOTE:\\nEND:VCARD\\n",
        "X-BEGIN:VCARD",
        "X-END:VCARD",
        "NOTE;X-A=\"BEGIN:VCARD\":x",
        "NOTE;X-A=\"END:VCARD\":x",
        "NOTE:a\r\n BEGIN:VCARD",
        "NOTE:a\r\n END:VCARD",
        "NOTE:\r\n \r\n END:VCARD",
    ];
    let mut text = String::new();
    let mut want: Vec<Option<String>> = Vec::new();
    for _ in 0..r.range(2, 6) {
        let good = r.chance(2, 3);
        let mut s = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n");
        let n = r.below(3);
        for _ in 0..n {
            s.push_str(r.pick(&odd));
            s.push_str("\r\n");
        }
        if !good {
            s.push_str(r.of(&[
                "TEL;PREF=0:END:VCARD",
                "TEL;PREF=0:BEGIN:VCARD",
                "KIND:END:VCARD",
                "FOO:BEGIN:VCARD",
                "TEL;PREF=0:\r\n BEGIN:VCARD",
                "X-A;VALUE=integer:END:VCARD",
                "\"BEGIN:VCARD",
                "NOTE;ALTID=\"BEGIN:VCARD",
                "BEGIN:VCAR",
                "END:VCAR",
                "BEGIN",
                "END",
                "\u{1}",
                "=",
            ]));
            s.push_str("\r\n");
        }
        for _ in 0..r.below(3) {
            s.push_str(r.pick(&odd));
            s.push_str("\r\n");
        }
        s.push_str("END:VCARD\r\n");
        let alone = vcard4::parse(&s);
        if alone.is_ok() != good {
            return fail(
                "a card with odd lines gets the wrong verdict",
                &s,
                format!(
                    "expected ok: {good}, {:?}",
                    alone.map(|c| dump_all(&c)).map_err(|e| shown(&e))
                ),
            );
        }
        want.push(alone.ok().map(|c| format!("{:?}", dump_all(&c))));
        text.push_str(&s);
        for _ in 0..r.below(3) {
            text.push_str(r.of(&["\r\n", "\n"]));
        }
    }
    cx.input = text.clone();
    let got: Vec<Option<String>> = vcard4::iter(&text, true)
        .take(100)
        .map(|x| x.ok().map(|c| format!("{:?}", dump_all(&[c]))))
        .collect();
    if got != want {
        return fail(
            "a card in a stream differs from the card alone",
            &text,
            format!("alone {want:?}\n  stream {got:?}"),
        );
    }
    cx.count("streams with misleading lines");
    cx.seen(&text);
    Ok(())
}

/// Junk between cards hides no good card.
fn junk(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut text = String::new();
    let mut want = Vec::new();
    for k in 0..r.range(1, 6) {
        for _ in 0..r.below(3) {
            text.push_str(r.of(&[
                "junk",
                "FN:x",
                "END:VCARD",
                "VERSION:4.0",
                "\u{1}",
                "é",
                "TEL;X=",
                "=",
                "\"",
                "  x",
                "a BEGIN:VCARD",
            ]));
            text.push_str(r.of(&["\r\n", "\n"]));
        }
        let name = format!("card {k}");
        text.push_str(&format!(
            "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:{name}\r\nEND:VCARD\r\n"
        ));
        want.push(name);
    }
    // text that begins with a blank would fold into the card before it
    let text = text.replace("\n  x", "\nx");
    cx.input = text.clone();
    for strict in [true, false] {
        let got: Vec<String> = vcard4::iter(&text, strict)
            .take(1000)
            .flatten()
            .map(|c| c.formatted_name[0].value.clone())
            .collect();
        if got != want {
            return fail(
                "skipping errors does not recover every good card",
                &text,
                format!("strict {strict} expected {want:?}, got {got:?}"),
            );
        }
    }
    cx.seen(&text);
    cx.count("streams with junk");
    Ok(())
}

/// Hostile streams: the laws that need no model.
fn laws(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut text = String::new();
    for _ in 0..r.range(1, 4) {
        let s = if r.bool() {
            crate::mutate::mutated(r)
        } else {
            crate::mutate::soup(r)
        };
        text.push_str(&s);
        if r.bool() {
            text.push('\n');
        }
    }
    cx.input = text.clone();
    for strict in [true, false] {
        let mut it = vcard4::iter(&text, strict);
        let mut got = Vec::new();
        for x in it.by_ref() {
            got.push(x);
            if got.len() > text.len() + 1 {
                return fail("more items than bytes", &text, "");
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                return fail("an item after the end", &text, format!("strict {strict}"));
            }
        }
        let again: Vec<String> = vcard4::iter(&text, strict)
            .map(|x| match x {
                Ok(c) => format!("{:?}", dump(&c)),
                Err(e) => shown(&e),
            })
            .collect();
        let show: Vec<String> = got
            .iter()
            .map(|x| match x {
                Ok(c) => format!("{:?}", dump(c)),
                Err(e) => shown(e),
            })
            .collect();
        if again != show {
            return fail("two iterations differ", &text, "");
        }
        let all = if strict {
            vcard4::parse(&text)
        } else {
            vcard4::parse_loose(&text)
        };
        let first = got.iter().find_map(|x| x.as_ref().err());
        let fine = match (&all, first) {
            (Ok(c), None) => !got.is_empty() && c.len() == got.len(),
            (Err(e), Some(f)) => shown(e) == shown(f),
            (Err(_), None) => got.is_empty(),
            _ => false,
        };
        if !fine {
            return fail(
                "parse and the iterator disagree",
                &text,
                format!(
                    "strict {strict} {:?}, items {show:?}",
                    all.map(|c| dump_all(&c)).map_err(|e| shown(&e))
                ),
            );
        }
        for c in got.iter().flatten() {
            if let Err(e) = c.validate() {
                return fail("the iterator yields an invalid card", &text, shown(&e));
            }
        }
        cx.add("items of hostile streams", got.len() as u64);
    }
    cx.seen(&text);
    Ok(())
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "streams of good and bad cards with blank lines between them; a case is non-trivial when every item (and five calls past the end) was compared with the model of the stream, and parse and try_from with the items",
        fams: vec![
            fam("streams", streams, 12_000, 600_000),
            exhaustive("sizes", sizes::streams, sizes::STREAMS),
            fam("isolation", isolation, 8_000, 300_000),
            fam("junk", junk, 8_000, 300_000),
            fam("laws", laws, 8_000, 500_000),
            fam("reference", refer::stream, 30_000, 2_000_000),
        ],
        must: vec!["item good", "item typed extension", "item no END", "item member without group", "streams with junk"],
    }
}
