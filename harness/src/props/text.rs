//! C03 (parameters) and C04 (escaping).

use super::*;
use crate::rng::Rng;
use crate::wire::{self, Style, PLAIN};
use crate::{gen, reader};

/// The `i`-th string over an alphabet of pieces, shortest first.
pub fn nth_pieces(pieces: &[&str], mut i: u64) -> Vec<usize> {
    let n = pieces.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    let mut v = Vec::new();
    for _ in 0..len {
        v.push((i % n) as usize);
        i /= n;
    }
    v
}

pub const fn upto(n: u64, len: u32) -> u64 {
    let mut c = 0;
    let mut k = 0;
    while k <= len {
        c += n.pow(k);
        k += 1;
    }
    c
}

pub fn p(name: &str, val: MVal) -> MProp {
    MProp {
        name: name.to_string(),
        group: None,
        params: None,
        val,
    }
}

pub fn pv(name: &str, value: &'static str, val: MVal) -> MProp {
    MProp {
        name: name.to_string(),
        group: None,
        params: Some(MParams {
            value: Some(value),
            ..Default::default()
        }),
        val,
    }
}

/// Write a card in memory and read it back; the text must have one content
/// line per property. Returns the text.
pub fn cycle(what: &str, card: &MCard, expected: &MCard) -> Result<String, Fail> {
    let c = match build(card) {
        Ok(c) => c,
        Err(e) => return fail(what, format!("{card:?}"), e),
    };
    let s = c.to_string();
    let lines = match reader::logical_lines(&s) {
        Ok(l) => l,
        Err(e) => return fail(format!("{what}: bad output"), s, e),
    };
    if lines.len() != card.len() + 3 {
        return fail(
            format!("{what}: number of lines written"),
            s,
            format!("{} properties, {} lines", card.len(), lines.len()),
        );
    }
    let e = sorted(expected.clone());
    expect_parse(what, &s, &[e])?;
    Ok(s)
}

// ---------------------------------------------------------------- C04

/// A card that carries the text everywhere a text can stand.
fn carriers(s: &str) -> MCard {
    let t = || MVal::Text(s.to_string());
    let o = || s.to_string();
    let b = || "b".to_string();
    let mut c: MCard = Vec::new();
    for n in gen::TEXT_PROPS {
        c.push(p(n, t()));
    }
    for l in [
        vec![o()],
        vec![o(), b()],
        vec![b(), o()],
        vec![o(), o(), o()],
        vec![b(), o(), b()],
    ] {
        c.push(p("CATEGORIES", MVal::List(l.clone())));
        c.push(p("ORG", MVal::List(l)));
    }
    c.push(p("N", MVal::List(vec![o(), b(), o(), o(), o()])));
    if !s.is_empty() {
        for i in 0..7 {
            let mut a: [Option<String>; 7] = Default::default();
            a[i] = Some(o());
            if i % 2 == 0 {
                a[(i + 1) % 7] = Some(b());
            }
            c.push(p("ADR", MVal::Adr(a)));
        }
        c.push(p("ADR", MVal::Adr(std::array::from_fn(|_| Some(o())))));
    }
    c.push(p("GENDER", MVal::Gender("O", Some(o()))));
    c.push(p("X-plain", t()));
    c.push(pv("X-text", "text", t()));
    for n in ["TEL", "RELATED", "UID", "KEY", "PHOTO"] {
        c.push(pv(n, "text", t()));
    }
    if !gen::has_scheme(s) {
        for n in ["TEL", "RELATED", "KEY", "PHOTO"] {
            c.push(p(n, t()));
        }
    }
    for n in ["BDAY", "ANNIVERSARY", "TZ"] {
        c.push(pv(n, "text", t()));
    }
    c.push(p("TZ", t()));
    #[cfg(not(feature = "language-tags"))]
    c.push(p("LANG", MVal::Lang(o())));
    // something to run into
    c.push(p("NOTE", MVal::Text("after".into())));
    c.push(p("X-after", MVal::Text("after".into())));
    c
}

fn map_text(c: &MCard, f: fn(&str) -> String) -> MCard {
    let mut c = c.clone();
    for p in &mut c {
        match &mut p.val {
            MVal::Text(s) => *s = f(s),
            MVal::Lang(s) => *s = f(s),
            MVal::List(l) => l.iter_mut().for_each(|s| *s = f(s)),
            MVal::Gender(_, Some(s)) => *s = f(s),
            MVal::Adr(a) => a.iter_mut().flatten().for_each(|s| *s = f(s)),
            _ => {}
        }
    }
    c
}

fn everywhere(cx: &mut Cx, s: &str, rewrite: bool) -> R {
    let card = carriers(s);
    cx.input = s.to_string();
    cycle(
        "text in memory",
        &card,
        &map_text(&card, gen::normal_newlines),
    )?;
    if rewrite {
        let st = Style {
            folds: false,
            ..Style::random(&mut cx.rng)
        };
        let doc = wire::document(&mut cx.rng, &st, &[card.clone()]);
        cx.input = doc.clone();
        expect_parse("text on the wire", &doc, &[sorted(card.clone())])?;
    }
    cx.add("text values carried", card.len() as u64);
    cx.seen(s);
    Ok(())
}

const ALPHA: [&str; 7] = ["a", ",", ";", "\\", "\n", ":", "\""];

/// Every string over the characters that mean something.
fn short(cx: &mut Cx) -> R {
    let v = nth_pieces(&ALPHA, cx.idx);
    let s: String = v.iter().map(|i| ALPHA[*i]).collect();
    let both = v.len() < 5 || cx.idx % 4 == cx.seed % 4;
    everywhere(cx, &s, both)
}

fn short_any(cx: &mut Cx) -> R {
    let n = cx.rng.range(5, 9);
    let s: String = (0..n).map(|_| *cx.rng.of(&ALPHA)).collect();
    everywhere(cx, &s, true)
}

const ALPHA2: [&str; 6] = ["n", "\\", ",", ";", "N", "\n"];
fn escapes_as_text(cx: &mut Cx) -> R {
    let v = nth_pieces(&ALPHA2, cx.idx);
    let s: String = v.iter().map(|i| ALPHA2[*i]).collect();
    everywhere(cx, &s, v.len() < 5)
}

fn texts(cx: &mut Cx) -> R {
    let s = gen::text(&mut cx.rng);
    everywhere(cx, &s, true)
}

/// Different texts side by side.
fn mixed(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut card = Vec::new();
    for _ in 0..r.range(2, 6) {
        let s = gen::text_cr(r);
        let all = carriers(&s);
        for _ in 0..r.range(1, 4) {
            let q = all[r.below(all.len())].clone();
            if !card
                .iter()
                .any(|o: &MProp| o.name == q.name && gen::SINGLE.contains(&&q.name[..]))
            {
                card.push(q);
            }
        }
    }
    if !card.iter().any(|q| q.name == "FN") {
        let s = gen::text_cr(r);
        card.push(p("FN", MVal::Text(s)));
    }
    cx.input = format!("{card:?}");
    let s = cycle(
        "text in memory",
        &card,
        &map_text(&card, gen::normal_newlines),
    )?;
    cx.add("text values carried", card.len() as u64);
    cx.seen(&s);
    Ok(())
}

/// Carriage returns: every string over a few pieces.
const CRS: [&str; 5] = ["\r", "\n", "a", "\\", ";"];
fn returns(cx: &mut Cx) -> R {
    let v = nth_pieces(&CRS, cx.idx);
    let s: String = v.iter().map(|i| CRS[*i]).collect();
    everywhere(cx, &s, false)
}

const PIECES: [(&str, &str); 9] = [
    ("a", "a"),
    ("\\\\", "\\"),
    ("\\,", ","),
    ("\\;", ";"),
    ("\\n", "\n"),
    ("\\N", "\n"),
    (",", ","),
    (";", ";"),
    (":", ":"),
];

fn decode(parts: &[usize], delimiter: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    for i in parts {
        if PIECES[*i].0 == delimiter {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push_str(PIECES[*i].1);
        }
    }
    out
}

/// Every sequence of escapes and delimiters as it may be written.
fn raw(cx: &mut Cx) -> R {
    let names: Vec<&str> = PIECES.iter().map(|p| p.0).collect();
    let v = nth_pieces(&names, cx.idx);
    raw_case(cx, v)
}

fn raw_any(cx: &mut Cx) -> R {
    let n = cx.rng.range(5, 12) as usize;
    let v = (0..n).map(|_| cx.rng.below(PIECES.len())).collect();
    raw_case(cx, v)
}

fn raw_case(cx: &mut Cx, v: Vec<usize>) -> R {
    let raw: String = v.iter().map(|i| PIECES[*i].0).collect();
    let text = decode(&v, "").concat();
    let semi = decode(&v, ";");
    let comma = decode(&v, ",");
    let mut doc = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\n");
    let mut e: MCard = Vec::new();
    let mut add = |line: String, q: MProp| {
        doc.push_str(&line);
        doc.push_str("\r\n");
        e.push(q);
    };
    for n in gen::TEXT_PROPS {
        add(format!("{n}:{raw}"), p(n, MVal::Text(text.clone())));
    }
    add(format!("X-a:{raw}"), p("X-a", MVal::Text(text.clone())));
    for n in [
        "TEL",
        "RELATED",
        "UID",
        "KEY",
        "PHOTO",
        "BDAY",
        "ANNIVERSARY",
        "TZ",
    ] {
        add(
            format!("{n};VALUE=text:{raw}"),
            pv(n, "text", MVal::Text(text.clone())),
        );
    }
    add(format!("N:{raw}"), p("N", MVal::List(semi.clone())));
    add(format!("ORG:{raw}"), p("ORG", MVal::List(semi.clone())));
    add(
        format!("CATEGORIES:{raw}"),
        p("CATEGORIES", MVal::List(comma)),
    );
    if semi.len() == 1 {
        let c = if text.is_empty() {
            None
        } else {
            Some(text.clone())
        };
        for i in 0..7 {
            let mut a: [Option<String>; 7] = Default::default();
            a[i] = c.clone();
            add(
                format!("ADR:{}{raw}{}", ";".repeat(i), ";".repeat(6 - i)),
                p("ADR", MVal::Adr(a)),
            );
        }
        add(
            format!("GENDER:F;{raw}"),
            p("GENDER", MVal::Gender("F", Some(text.clone()))),
        );
    }
    if semi.len() == 7 {
        let a = std::array::from_fn(|i| Some(semi[i].clone()).filter(|s| !s.is_empty()));
        add(format!("ADR:{raw}"), p("ADR", MVal::Adr(a)));
    }
    doc.push_str("END:VCARD\r\n");
    cx.input = doc.clone();
    let n = e.len();
    expect_parse("escapes", &doc, &[sorted(e)])?;
    cx.add("escaped values decoded", n as u64);
    cx.seen(&raw);
    Ok(())
}

/// Text that tries to end its line.
fn injection(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut s = if r.bool() {
        gen::text(r)
    } else {
        String::new()
    };
    for _ in 0..r.range(1, 4) {
        s.push_str(r.pick(&[
            "\n", "\r\n", "\r", "\u{85}", "\u{2028}", "\\", "\\\r\n", "\n ", "\n\t",
        ]));
        s.push_str(r.pick(&[
            "END:VCARD",
            "END:VCARD\nBEGIN:VCARD\nVERSION:4.0\nFN:evil",
            "FN:evil",
            "TEL;VALUE=uri:tel:1",
            "X-EVIL:1",
            ":",
            "BEGIN:VCARD",
            "VERSION:4.0",
            ";TYPE=home:evil",
            "UID:evil",
            "item1.NOTE:evil",
            " NOTE:evil",
        ]));
        if r.bool() {
            s.push_str(r.pick(&["\n", "\r\n", "\r"]));
        }
    }
    everywhere(cx, &s, false)
}

const SHAPES: [&str; 14] = [
    ";", ",", "\\", "\n", "a;b", "a,b", "a\\b", "a\nb", ";;", "\\;", "\\n", " ", ":", "\"",
];

/// Every combination of address parts that are there, and every combination
/// of kinds of list items.
fn shapes(cx: &mut Cx) -> R {
    let n = SHAPES.len() as u64;
    let special = SHAPES[(cx.idx % n) as usize];
    let mask = cx.idx / n;
    let r = &mut cx.rng;
    let mut c: MCard = Vec::new();
    // the special text in the parts that are there, or in one of them only
    let only = r.below(7);
    for all in [true, false] {
        c.push(p(
            "ADR",
            MVal::Adr(std::array::from_fn(|i| {
                (mask >> i & 1 == 1).then(|| {
                    if all || i == only {
                        format!("{special}{i}")
                    } else {
                        format!("{i}")
                    }
                })
            })),
        ));
        c.push(p(
            "ADR",
            MVal::Adr(std::array::from_fn(|i| {
                (mask >> i & 1 == 1).then(|| special.to_string())
            })),
        ));
    }
    // lists of 1 to 6 items that are empty, special or plain
    let m = mask % 64;
    let len = 1 + (mask as usize * 7 + cx.idx as usize) % 6;
    for (name, empty) in [("N", true), ("ORG", true), ("CATEGORIES", false)] {
        let l: Vec<String> = (0..len)
            .map(
                |i| match (m >> i & 1, empty && (mask >> (5 - i) & 1) == 1) {
                    (1, _) => format!("{special}{}", if i % 2 == 0 { "x" } else { "" }),
                    (_, true) => String::new(),
                    _ => "b".to_string(),
                },
            )
            .collect();
        // one item that is empty can't be told from no item
        if l.iter().any(|s| !s.is_empty()) {
            c.push(p(name, MVal::List(l)));
        }
    }
    for sex in ["M", "F", "O", "N", "U", ""] {
        c.push(p(
            "GENDER",
            MVal::Gender(sex, Some(format!("{special}{}", mask % 3))),
        ));
        let single = c.pop();
        let card = vec![
            p("FN", MVal::Text(special.into())),
            single.unwrap(),
            p("NOTE", MVal::Text("after".into())),
        ];
        if mask % 16 == 0 {
            cx.input = format!("{card:?}");
            cycle("shape in memory", &card, &card)?;
        }
    }
    c.push(p("FN", MVal::Text(special.into())));
    cx.input = format!("{c:?}");
    cycle("shape in memory", &c, &c)?;
    let st = Style::random(&mut cx.rng);
    let doc = wire::document(&mut cx.rng, &st, &[c.clone()]);
    cx.input = doc.clone();
    expect_parse("shape on the wire", &doc, &[sorted(c.clone())])?;
    cx.add("text values carried", c.len() as u64);
    cx.seen(&doc);
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "a text is put into every text-carrying position of a card, written and read back (and written by the reference writer and read), and the values and the number of lines are compared; raw escape sequences are compared with an independent decoder; non-trivial when all comparisons for the text were made",
        fams: vec![
            growing("short", short, upto(7, 4), upto(7, 6)),
            exhaustive("sizes", sizes::texts, sizes::TEXTS),
            fam("short-any", short_any, 3_000, 100_000),
            growing("escapes-as-text", escapes_as_text, upto(6, 4), upto(6, 6)),
            growing("returns", returns, upto(5, 4), upto(5, 6)),
            growing("raw", raw, upto(9, 4), upto(9, 6)),
            fam("raw-any", raw_any, 4_000, 200_000),
            fam("texts", texts, 3_000, 400_000),
            fam("mixed", mixed, 6_000, 800_000),
            fam("injection", injection, 3_000, 300_000),
            exhaustive("shapes", shapes, 128 * SHAPES.len() as u64),
            fam("reference", refer::texts, 10_000, 2_000_000),
        ],
        must: vec!["text values carried", "escaped values decoded"],
    }
}

// ---------------------------------------------------------------- C03

fn params_of(r: &mut Rng, name: &str, density: usize) -> MProp {
    let mut q = gen::prop(r, name, density);
    // values are not the subject
    if let MVal::Text(s) = &mut q.val {
        if s.len() > 40 {
            *s = "v".into();
        }
    }
    q
}

fn fix_card(mut c: MCard) -> MCard {
    if !c.iter().any(|q| q.name == "FN") {
        c.push(p("FN", MVal::Text("x".into())));
    }
    if c.iter().any(|q| q.name == "MEMBER") && !c.iter().any(|q| q.name == "KIND") {
        c.push(p("KIND", MVal::Kind("group")));
    }
    c
}

fn names(i: u64) -> &'static str {
    const EXT: [&str; 2] = ["X-A", "X-b-C"];
    let i = i as usize % (FIELDS.len() + EXT.len());
    if i < FIELDS.len() {
        FIELDS[i]
    } else {
        EXT[i - FIELDS.len()]
    }
}

fn dense_card(r: &mut Rng, idx: u64) -> MCard {
    let mut c = Vec::new();
    let d = *r.of(&[20, 50, 70, 90]);
    c.push(params_of(r, names(idx), d));
    c.push(p("NOTE", MVal::Text("after".into())));
    if r.bool() {
        let q = gen::any_prop(r, d);
        if q.name != c[0].name || !gen::SINGLE.contains(&&q.name[..]) {
            c.push(q);
        }
    }
    if c[0].name == "KIND" {
        c[0].val = MVal::Kind("group");
    }
    fix_card(c)
}

fn count_params(cx: &mut Cx, c: &MCard) {
    for q in c {
        let Some(m) = &q.params else { continue };
        for (n, on) in [
            ("LANGUAGE", m.language.is_some()),
            ("VALUE", m.value.is_some()),
            ("PREF", m.pref.is_some()),
            ("ALTID", m.alt_id.is_some()),
            ("PID", m.pid.is_some()),
            ("TYPE", m.types.is_some()),
            ("MEDIATYPE", m.media_type.is_some()),
            ("CALSCALE", m.calscale.is_some()),
            ("SORT-AS", m.sort_as.is_some()),
            ("GEO", m.geo.is_some()),
            ("TZ", m.tz.is_some()),
            ("LABEL", m.label.is_some()),
            ("X-", m.ext.is_some()),
        ] {
            if on {
                cx.count(&format!("param {n}"));
            }
        }
    }
}

fn on_the_wire(cx: &mut Cx) -> R {
    let c = dense_card(&mut cx.rng, cx.idx);
    let st = Style {
        params: true,
        ..Style::random(&mut cx.rng)
    };
    let doc = wire::document(&mut cx.rng, &st, &[c.clone()]);
    cx.input = doc.clone();
    expect_parse("parameters on the wire", &doc, &[sorted(c.clone())])?;
    count_params(cx, &c);
    cx.seen(&doc);
    Ok(())
}

fn in_memory(cx: &mut Cx) -> R {
    let c = dense_card(&mut cx.rng, cx.idx);
    cx.input = format!("{c:?}");
    let s = cycle("parameters in memory", &c, &c)?;
    count_params(cx, &c);
    cx.seen(&s);
    Ok(())
}

const SLOTS: usize = 11;
/// Put a text into one parameter; false when the slot is not for it.
fn slot(m: &mut MParams, i: usize, name: &str, s: &str) -> bool {
    let o = || s.to_string();
    match i {
        0 => m.alt_id = Some(o()),
        1 => m.calscale = Some(o()),
        2 => {
            if name != "ADR" {
                return false;
            }
            m.label = Some(o())
        }
        3 => m.sort_as = Some(vec![o()]),
        4 => m.sort_as = Some(vec!["a".into(), o(), "".into()]),
        5 => m.ext = Some(vec![("X-q".into(), vec![o()])]),
        6 => {
            m.ext = Some(vec![
                ("ENCODING".into(), vec!["b".into()]),
                ("x-r".into(), vec![o(), "z".into(), o()]),
                ("X-q".into(), vec!["1".into()]),
            ])
        }
        7 => {
            if !gen::type_allowed(name) {
                return false;
            }
            m.types = Some(vec![MType::Ext(o())])
        }
        8 => {
            if !gen::type_allowed(name) {
                return false;
            }
            m.types = Some(vec![MType::Home, MType::Ext(o()), MType::Tel("cell")])
        }
        9 => {
            if gen::has_scheme(s) {
                return false;
            }
            m.tz = Some(MTz::Text(o()))
        }
        _ => {
            #[cfg(not(any(feature = "mime", feature = "language-tags")))]
            {
                m.language = Some(o());
                m.media_type = Some(o());
            }
            #[cfg(any(feature = "mime", feature = "language-tags"))]
            return false;
        }
    }
    true
}

const HOSTILE: [&str; 36] = [
    "",
    " ",
    "a",
    ":",
    ";",
    ",",
    "\\",
    "\n",
    "=",
    ".",
    "a:b",
    "a;b",
    "a,b",
    "a\\b",
    "a\\",
    "\\n",
    "\\,",
    "\\;",
    "a\nb",
    ":;,\\\n",
    "TYPE=home",
    ";TYPE=home:x",
    "x\nEND:VCARD\nFN:y",
    "tel:+1",
    "-0500",
    "+01",
    "Z",
    "'a'",
    "^n",
    "^'",
    "a\tb",
    "é",
    "\u{1F468}\u{200D}\u{1F469}",
    "a b",
    "X-a",
    "home",
];

/// Every hostile value in every parameter of every property.
fn hostile(cx: &mut Cx) -> R {
    let i = cx.idx as usize;
    let name = names((i % 37) as u64);
    let i = i / 37;
    let sl = i % SLOTS;
    let s = HOSTILE[i / SLOTS];
    let mut q = gen::prop(&mut cx.rng, name, 0);
    let mut m = q.params.take().unwrap_or_default();
    if !slot(&mut m, sl, name, s) {
        cx.count("slot not for this property or text");
        return Ok(());
    }
    q.params = Some(m);
    if name == "KIND" {
        q.val = MVal::Kind("group");
    }
    let c = fix_card(vec![q, p("NOTE", MVal::Text("after".into()))]);
    cx.input = format!("{c:?}");
    let t = cycle("parameter in memory", &c, &c)?;
    for params in [false, true, true, true] {
        let st = Style { params, ..PLAIN };
        let doc = wire::document(&mut cx.rng, &st, &[c.clone()]);
        cx.input = doc.clone();
        expect_parse("parameter on the wire", &doc, &[sorted(c.clone())])?;
    }
    cx.count("hostile parameter values");
    cx.seen(&t);
    Ok(())
}

const ALPHA3: [&str; 8] = ["a", ":", ";", ",", "\\", "\n", "=", "n"];

/// Every short string over the delimiters, in all parameters at once.
fn short_params(cx: &mut Cx) -> R {
    let v = nth_pieces(&ALPHA3, cx.idx);
    let s: String = v.iter().map(|i| ALPHA3[*i]).collect();
    let name = "ADR";
    let mut c: MCard = Vec::new();
    let mut all = MParams::default();
    for i in 0..SLOTS {
        let mut m = MParams::default();
        if slot(&mut m, i, name, &s) {
            slot(&mut all, i, name, &s);
            let mut q = p("ADR", MVal::Adr(Default::default()));
            q.params = Some(m);
            c.push(q);
        }
    }
    let mut q = p("ADR", MVal::Adr(Default::default()));
    q.params = Some(all);
    c.push(q);
    let c = fix_card(c);
    cx.input = format!("{c:?}");
    let t = cycle("parameters in memory", &c, &c)?;
    for params in [false, true] {
        let st = Style {
            params,
            escapes: params,
            ..PLAIN
        };
        let doc = wire::document(&mut cx.rng, &st, &[c.clone()]);
        cx.input = doc.clone();
        expect_parse("parameters on the wire", &doc, &[sorted(c.clone())])?;
    }
    cx.add("short parameter values", c.len() as u64);
    cx.seen(&t);
    Ok(())
}

/// Numeric parameters, on every property.
fn numbers(cx: &mut Cx) -> R {
    let name = names(cx.idx % 37);
    let n = cx.idx / 37 + 1;
    let r = &mut cx.rng;
    let mut q = gen::prop(r, name, 0);
    let mut m = q.params.take().unwrap_or_default();
    m.pref = Some(n as u8);
    let k = [
        1u64,
        9,
        10,
        99,
        255,
        256,
        65535,
        65536,
        4294967295,
        4294967296,
        u64::MAX - 1,
        u64::MAX,
        0,
    ];
    let (a, b) = (*r.of(&k), *r.of(&k));
    if name != "CLIENTPIDMAP" {
        m.pid = Some(match n % 4 {
            0 => vec![(a, Some(b))],
            1 => vec![(a, None)],
            2 => vec![(a, None), (b, Some(n))],
            _ => vec![(n, Some(b)), (a, Some(b)), (b, None)],
        });
    }
    q.params = Some(m);
    if name == "KIND" {
        q.val = MVal::Kind("group");
    }
    let c = fix_card(vec![q]);
    cx.input = format!("{c:?}");
    let t = cycle("parameter in memory", &c, &c)?;
    let st = Style {
        params: true,
        ..PLAIN
    };
    let doc = wire::document(&mut cx.rng, &st, &[c.clone()]);
    expect_parse("parameter on the wire", &doc, &[sorted(c)])?;
    cx.count("numeric parameter values");
    cx.seen(&t);
    Ok(())
}

/// Parameters repeated or out of order, and what repetition means.
fn repeated(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let name = r.pick(&gen::TYPE_ALLOWED);
    let mut q = gen::prop(r, name, 0);
    q.group = None;
    let mut m = q.params.take().unwrap_or_default();
    let types = gen::list(r, 6, gen::mtype);
    let st = Style {
        case: r.bool(),
        params: true,
        ..PLAIN
    };
    let mut line = name.to_string();
    let mut rest = types.clone();
    let mut ext: Vec<(String, Vec<String>)> = Vec::new();
    let value = m.value;
    if let Some(v) = value {
        line.push_str(&format!(";VALUE={v}"));
    }
    while !rest.is_empty() {
        let n = 1 + r.below(rest.len());
        let toks: Vec<String> = rest
            .drain(..n)
            .map(|t| {
                let t = wire::type_token(r, &st, &t);
                wire::esc(r, &PLAIN, &t, ",")
            })
            .collect();
        line.push_str(&format!(";TYPE=\"{}\"", toks.join(",")));
        if r.bool() {
            let n = gen::xname(r);
            let v = gen::alnum(r, 0, 5);
            line.push_str(&format!(";{n}={v}"));
            ext.push((n, vec![v]));
        }
    }
    let v = wire::value(r, &PLAIN, &q);
    line.push_str(&format!(":{v}"));
    m.types = Some(types);
    m.ext = Some(ext).filter(|e| !e.is_empty());
    q.params = Some(m);
    let mut c: MCard = vec![q];
    if name != "FN" {
        c.push(p("FN", MVal::Text("x".into())));
    }
    let fnl = if name != "FN" { "FN:x\r\n" } else { "" };
    let doc = format!("BEGIN:VCARD\r\nVERSION:4.0\r\n{line}\r\n{fnl}END:VCARD\r\n");
    cx.input = doc.clone();
    expect_parse("repeated parameters", &doc, &[sorted(c)])?;
    cx.count("repeated TYPE and X- parameters");
    cx.seen(&doc);
    Ok(())
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "cards with dense parameter sets are written by the reference writer (all quotings, orders, repetitions) and parsed, and built in memory, written and re-parsed; parameters, value and neighbouring lines are compared with the model; non-trivial when the compared property carries at least one parameter",
        fams: vec![
            fam("wire", on_the_wire, 8_000, 1_500_000),
            exhaustive("sizes", sizes::params, sizes::PARAMS),
            fam("memory", in_memory, 8_000, 1_500_000),
            exhaustive("hostile", hostile, (37 * SLOTS * HOSTILE.len()) as u64),
            growing("short", short_params, upto(8, 4), upto(8, 5)),
            exhaustive("numbers", numbers, 37 * 100),
            fam("repeated", repeated, 10_000, 800_000),
            fam("reference", refer::params, 15_000, 2_000_000),
        ],
        must: vec![
            "param LANGUAGE",
            "param VALUE",
            "param PREF",
            "param ALTID",
            "param PID",
            "param TYPE",
            "param MEDIATYPE",
            "param CALSCALE",
            "param SORT-AS",
            "param GEO",
            "param TZ",
            "param LABEL",
            "param X-",
            "hostile parameter values",
        ],
    }
}
