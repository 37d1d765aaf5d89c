//! Reading: C02 (faithful parsing), C08 (folding), C09 (letter case).

use super::*;
use crate::{gen, wire};

pub fn count_props(cx: &mut Cx, cards: &[MCard]) {
    for c in cards {
        for p in c {
            let n = if gen::is_ext(&p.name) {
                match p.params.as_ref().and_then(|p| p.value) {
                    Some(v) => format!("prop X- {v}"),
                    None => "prop X-".to_string(),
                }
            } else {
                format!("prop {}", p.name)
            };
            cx.count(&n);
        }
    }
}

const DIFFER: &str = "parsed cards differ from the cards written";

fn check_model(cx: &mut Cx, st: &wire::Style, cards: &[MCard]) -> R {
    let text = wire::document(&mut cx.rng, st, cards);
    cx.input = text.clone();
    expect_parse(DIFFER, &text, &sorted_all(cards))?;
    count_props(cx, cards);
    cx.seen(&text);
    Ok(())
}

/// Random documents in every spelling.
fn documents(cx: &mut Cx) -> R {
    let cards = gen::cards(&mut cx.rng);
    let st = wire::Style::random(&mut cx.rng);
    check_model(cx, &st, &cards)
}

/// Every name, and every ordered pair of names, in one card.
fn name_at(i: usize) -> &'static str {
    if i < FIELDS.len() {
        FIELDS[i]
    } else {
        "X-ABC"
    }
}
const NAMES: u64 = FIELDS.len() as u64 + 1;

fn pairs(cx: &mut Cx) -> R {
    let rounds = 4;
    let i = (cx.idx / rounds) as usize;
    let a = name_at(i / NAMES as usize);
    let b = name_at(i % NAMES as usize);
    let density = [0, 10, 60, 100][(cx.idx % rounds) as usize];
    if a == b && gen::SINGLE.contains(&a) {
        return Ok(());
    }
    let mut c = vec![
        gen::prop(&mut cx.rng, a, density),
        gen::prop(&mut cx.rng, b, density),
    ];
    if cx.rng.bool() {
        // the same value for both when they have the same kind of value
        if std::mem::discriminant(&c[0].val) == std::mem::discriminant(&c[1].val) && a == b {
            c[1].val = c[0].val.clone();
        }
    }
    for p in &mut c {
        if p.name == "KIND" {
            p.val = MVal::Kind("group");
        }
    }
    if (a == "MEMBER" || b == "MEMBER") && a != "KIND" && b != "KIND" {
        let mut k = gen::prop(&mut cx.rng, "KIND", density);
        k.val = MVal::Kind("group");
        let i = cx.rng.below(3);
        c.insert(i, k);
    }
    let c = gen::make_valid(&mut cx.rng, c);
    let st = wire::Style::random(&mut cx.rng);
    check_model(cx, &st, &[c])
}

/// Lines repeated verbatim, or differing in one respect only.
fn repeats(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let p = loop {
        let p = gen::any_prop(r, 20);
        if !gen::SINGLE.contains(&&p.name[..]) {
            break p;
        }
    };
    let mut c = Vec::new();
    for _ in 0..r.range(2, 12) {
        let mut q = p.clone();
        match r.below(5) {
            0 => q.group = Some(gen::group(r)),
            1 => q.group = None,
            2 => {
                let v = q.params.as_ref().and_then(|p| p.value);
                q.params = gen::params(r, &q.name, v, 20);
            }
            _ => {}
        }
        c.push(q);
        if r.chance(1, 3) {
            c.push(gen::any_prop(r, 0));
        }
    }
    let c = gen::make_valid(r, c);
    let st = wire::Style::random(r);
    check_model(cx, &st, &[c])
}

/// Streams of many cards, and cards of many lines.
fn big(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let cards: Vec<MCard> = if r.bool() {
        (0..r.range(20, 200)).map(|_| gen::card(r)).collect()
    } else {
        let mut c = Vec::new();
        for _ in 0..r.range(200, 1500) {
            c.push(gen::any_prop(r, 5));
        }
        vec![gen::make_valid(r, c)]
    };
    let st = wire::Style::random(r);
    check_model(cx, &st, &cards)
}

/// Every line of a card carries every parameter it admits.
fn dense(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut c = Vec::new();
    for _ in 0..r.range(1, 4) {
        c.push(gen::any_prop(r, 90));
    }
    let c = gen::make_valid(r, c);
    let st = wire::Style::random(r);
    check_model(cx, &st, &[c])
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "cards are generated from a model and written by a reference writer in random spellings (case, quoting, escapes, folds, line endings); a case is non-trivial when the document was parsed and every field of every returned card was compared with the model",
        fams: vec![
            fam("documents", documents, 90_000, 6_000_000),
            exhaustive("pairs", pairs, NAMES * NAMES * 4),
            fam("repeats", repeats, 20_000, 1_000_000),
            exhaustive("sizes", sizes::props, sizes::PROPS),
            fam("dense", dense, 10_000, 500_000),
            fam("big", big, 60, 4_000),
            fam("reference", refer::accept, 40_000, 3_000_000),
        ],
        must: vec!["prop X-", "prop ADR", "prop CLIENTPIDMAP", "prop MEMBER"],
    }
}

// ------------------------------------------------------------------ C08

const FOLDS: [&str; 4] = ["\r\n ", "\r\n\t", "\n ", "\n\t"];

/// Everything observable about parsing a text.
pub fn observe(text: &str) -> String {
    let show = |r: Result<Vec<vcard4::Vcard>, vcard4::Error>| match r {
        Ok(c) => format!("Ok {:?}", dump_all(&c)),
        Err(e) => format!("Err {}", variant(&e)),
    };
    let mut s = format!(
        "strict {}\nloose {}\n",
        show(vcard4::parse(text)),
        show(vcard4::parse_loose(text))
    );
    for strict in [true, false] {
        for (i, item) in vcard4::iter(text, strict).take(1000).enumerate() {
            s.push_str(&format!(
                "iter {strict} {i} {}\n",
                show(item.map(|c| vec![c]))
            ));
        }
    }
    s
}

fn same(what: &str, base: &str, base_obs: &str, other: &str) -> R {
    let obs = observe(other);
    if obs != base_obs {
        let a: Vec<_> = base_obs.lines().collect();
        let b: Vec<_> = obs.lines().collect();
        let d = a
            .iter()
            .zip(b.iter())
            .find(|(x, y)| x != y)
            .map(|(x, y)| format!("before: {x}\n  after:  {y}"))
            .unwrap_or_else(|| format!("{} / {} lines", a.len(), b.len()));
        return fail(what, other, format!("original: {base:?}\n  {d}"));
    }
    Ok(())
}

/// Sometimes an erroneous line, so that errors are compared too.
fn spoil(cx: &mut Cx, lines: &mut Vec<String>) {
    if cx.rng.chance(1, 4) {
        let bad = cx
            .rng
            .pick(&[
                "TEL;PREF=0:1",
                "NOTE;TYPE=a:\"b;c",
                "X-A;VALUE=integer:1,x",
                "URL:no uri",
                "KIND",
                "BDAY:19851301",
                "FOO;TYPE=home:bar",
                "GENDER:Z;x",
                "NOTE;LABEL=a:b",
                "VERSION:4.0",
            ])
            .to_string();
        let i = cx.rng.range(2, lines.len() as i64 - 1) as usize;
        lines.insert(i, bad);
        cx.count("documents with an erroneous line");
    }
}

/// One fold at every position of a card.
fn every_position(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut c = Vec::new();
    for _ in 0..r.range(1, 2) {
        let mut p = gen::any_prop(r, 12);
        if let MVal::Text(s) = &mut p.val {
            if s.len() > 80 {
                *s = s.chars().take(40).collect();
            }
        }
        c.push(p);
    }
    let c = gen::make_valid(r, c);
    let st = wire::Style {
        folds: false,
        endings: false,
        ..wire::FULL
    };
    let mut lines = wire::card_lines(r, &st, &c);
    spoil(cx, &mut lines);
    let total: usize = lines.iter().map(|l| l.len()).sum();
    if total > 1500 {
        return Ok(());
    }
    let join = |l: &[String]| l.join("\r\n") + "\r\n";
    let base = join(&lines);
    cx.input = base.clone();
    let obs = observe(&base);
    for (n, l) in lines.iter().enumerate() {
        for (pos, _) in l.char_indices().skip(1) {
            for f in FOLDS {
                let mut folded = lines.clone();
                folded[n].insert_str(pos, f);
                let text = join(&folded);
                cx.input = text.clone();
                same("a fold changes the result", &base, &obs, &text)?;
                cx.add("single folds", 1);
            }
        }
    }
    cx.seen(&base);
    Ok(())
}

/// Many folds at once, mixed line endings, with and without final ending.
fn refold(cx: &mut Cx) -> R {
    let cards = gen::cards(&mut cx.rng);
    let st = wire::Style {
        folds: false,
        endings: false,
        ..wire::FULL
    };
    let mut lines = Vec::new();
    for c in &cards {
        let mut l = wire::card_lines(&mut cx.rng, &st, c);
        spoil(cx, &mut l);
        lines.extend(l);
    }
    let base = lines.join("\r\n") + "\r\n";
    cx.input = base.clone();
    let obs = observe(&base);
    for k in 0..4 {
        let st = match k {
            0 => wire::Style {
                folds: true,
                ..wire::PLAIN
            },
            1 => wire::Style {
                endings: true,
                ..wire::PLAIN
            },
            _ => wire::FULL,
        };
        let mut text = wire::physical(&mut cx.rng, &st, &lines);
        if cx.rng.chance(1, 3) {
            // drop the final ending
            text.pop();
            if text.ends_with('\r') {
                text.pop();
            }
            cx.count("no final line ending");
        }
        cx.input = text.clone();
        same(
            "folds or line endings change the result",
            &base,
            &obs,
            &text,
        )?;
        cx.seen(&text);
    }
    Ok(())
}

/// Large cards with a great many folds.
fn sized(cx: &mut Cx) -> R {
    cx.idx = cx.rng.next() % sizes::ALL;
    let Some((what, m)) = sizes::any(cx) else {
        return Ok(());
    };
    let st = wire::Style {
        folds: false,
        endings: false,
        ..wire::FULL
    };
    let lines = wire::card_lines(&mut cx.rng, &st, &m);
    let base = lines.join("\r\n") + "\r\n";
    cx.input = base.clone();
    let obs = observe(&base);
    let many = *cx.rng.of(&[3usize, 50, 300, 900]);
    let mut text = String::new();
    for l in &lines {
        text.push_str(&wire::fold(&mut cx.rng, l, many));
        text.push_str(if cx.rng.bool() { "\r\n" } else { "\n" });
    }
    cx.input = text.clone();
    same(&format!("many folds: {what}"), &base, &obs, &text)?;
    cx.seen(&text);
    Ok(())
}

/// Blanks after the fold belong to the value.
fn blanks(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut val = String::new();
    let mut wire = String::new();
    for _ in 0..r.range(1, 6) {
        match r.below(3) {
            0 => {
                let w = gen::alnum(r, 1, 6);
                val.push_str(&w);
                wire.push_str(&w);
            }
            1 => {
                for _ in 0..r.range(1, 4) {
                    let c = if r.bool() { ' ' } else { '\t' };
                    val.push(c);
                    wire.push(c);
                }
            }
            _ => wire.push_str(r.pick(&FOLDS)),
        }
    }
    let name = *r.of(&["FN", "NOTE", "X-A", "a.TITLE"]);
    let text = format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n{name}:{wire}\r\nEND:VCARD\r\n");
    cx.input = text.clone();
    let cards = match vcard4::parse(&text) {
        Ok(c) => c,
        Err(e) => return fail("blanks: rejected", text, format!("{e:?}")),
    };
    let d = dump(&cards[0]);
    let got = d.iter().rev().find_map(|p| {
        (name.ends_with(&p.name[..]) && (p.name != "FN" || d.len() == 2)).then_some(&p.val)
    });
    if got != Some(&MVal::Text(val.clone())) {
        return fail(
            "blanks around folds",
            text,
            format!("expected {val:?}, observed {got:?}"),
        );
    }
    cx.seen(&text);
    Ok(())
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "documents from the model are refolded (one fold of each kind at every character position, or many random folds) and given other line endings; a case is non-trivial when the results of parse, parse_loose and both iterators before and after were compared",
        fams: vec![
            fam("every-position", every_position, 160, 20_000),
            fam("refold", refold, 4_000, 500_000),
            fam("sizes", sized, 160, 4 * sizes::ALL),
            fam("blanks", blanks, 10_000, 500_000),
        ],
        must: vec!["single folds", "no final line ending"],
    }
}

// ------------------------------------------------------------------ C09

fn recased(cx: &mut Cx) -> R {
    let cards = gen::cards(&mut cx.rng);
    let st = wire::Style {
        case: true,
        params: cx.rng.bool(),
        ..wire::PLAIN
    };
    check_model(cx, &st, &cards)
}

/// All spellings of one keyword at a time.
fn spellings(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let name = name_at((cx.idx / 12) as usize);
    let mode = cx.idx % 12;
    let density = *r.of(&[0, 30, 100]);
    let mut p = gen::prop(r, name, density);
    if p.name == "KIND" {
        p.val = MVal::Kind("group");
    }
    p.group = if mode % 2 == 0 {
        None
    } else {
        Some(gen::group(r))
    };
    let mut c = vec![p];
    if name == "MEMBER" {
        let mut k = gen::prop(r, "KIND", 0);
        k.val = MVal::Kind("group");
        c.push(k);
    }
    let c = gen::make_valid(r, c);
    let plain = wire::PLAIN;
    let mut lines = vec!["BEGIN:VCARD".to_string(), "VERSION:4.0".into()];
    for p in &c {
        let l = wire::line(r, &plain, p);
        lines.push(if p.name == name && !gen::is_ext(name) {
            // recase the name and nothing else
            let start = p.group.as_ref().map(|g| g.len() + 1).unwrap_or(0);
            let end = start + p.name.len();
            let n = match mode / 2 {
                0 => l[start..end].to_ascii_lowercase(),
                1 => l[start..end].to_ascii_uppercase(),
                2 => {
                    let n = &l[start..end];
                    n[..1].to_ascii_lowercase() + &n[1..]
                }
                3 => {
                    let n = l[start..end].to_ascii_lowercase();
                    n[..1].to_ascii_uppercase() + &n[1..]
                }
                4 => {
                    // last letter only
                    let n = &l[start..end];
                    let k = n.len() - 1;
                    n[..k].to_string() + &n[k..].to_ascii_lowercase()
                }
                _ => wire::recase(r, &l[start..end]),
            };
            format!("{}{}{}", &l[..start], n, &l[end..])
        } else {
            l
        });
    }
    lines.push("END:VCARD".into());
    for (i, k) in [(0, 7), (1, 5), (lines.len() - 1, 11)] {
        if k == mode {
            lines[i] = lines[i].to_ascii_lowercase();
        }
        if k == mode + 1 {
            lines[i] = wire::recase(r, &lines[i].clone());
        }
    }
    let text = lines.join("\n") + "\n";
    cx.input = text.clone();
    expect_parse("other letter case of a name", &text, &sorted(c).into_list())?;
    cx.count("name spellings");
    cx.seen(&text);
    Ok(())
}

trait IntoList {
    fn into_list(self) -> Vec<MCard>;
}
impl IntoList for MCard {
    fn into_list(self) -> Vec<MCard> {
        vec![self]
    }
}

const PNAMES: [&str; 13] = [
    "LANGUAGE",
    "VALUE",
    "PREF",
    "ALTID",
    "PID",
    "TYPE",
    "MEDIATYPE",
    "CALSCALE",
    "SORT-AS",
    "GEO",
    "TZ",
    "LABEL",
    "CHARSET",
];

/// Every parameter name and every enumerated parameter value.
fn keywords(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let tokens: Vec<(&str, MType)> = [("home", MType::Home), ("work", MType::Work)]
        .into_iter()
        .chain(TELS.iter().map(|t| (*t, MType::Tel(t))))
        .chain(RELS.iter().map(|t| (*t, MType::Rel(t))))
        .collect();
    let n = (PNAMES.len() + VALUES.len() + tokens.len()) as u64;
    let i = (cx.idx % n) as usize;
    let group = if r.bool() { "grP." } else { "" };
    let mut exp = MParams::default();
    // (property, parameter text, value text, expected value)
    let mut prop = ("ADR", ";;s;;;;".to_string(), {
        let mut a: [Option<String>; 7] = Default::default();
        a[2] = Some("s".into());
        MVal::Adr(a)
    });
    let label;
    let param = if i < PNAMES.len() {
        let name = PNAMES[i];
        let v = match name {
            "LANGUAGE" => {
                exp.language = Some("fr-CA".into());
                "fr-CA"
            }
            "VALUE" => {
                exp.value = Some("text");
                "text"
            }
            "PREF" => {
                exp.pref = Some(7);
                "7"
            }
            "ALTID" => {
                exp.alt_id = Some("AbC".into());
                "AbC"
            }
            "PID" => {
                exp.pid = Some(vec![(1, Some(2))]);
                "1.2"
            }
            "TYPE" => {
                exp.types = Some(vec![MType::Home]);
                "home"
            }
            "MEDIATYPE" => {
                exp.media_type = Some("text/plain".into());
                "text/plain"
            }
            "CALSCALE" => {
                exp.calscale = Some("GreGorian".into());
                "GreGorian"
            }
            "SORT-AS" => {
                exp.sort_as = Some(vec!["AbC".into(), "dEf".into()]);
                "AbC,dEf"
            }
            "GEO" => {
                exp.geo = Some("geo:1.5,2".into());
                "\"geo:1.5,2\""
            }
            "TZ" => {
                exp.tz = Some(MTz::Text("Europe/Berlin".into()));
                "Europe/Berlin"
            }
            "LABEL" => {
                exp.label = Some("MixedCase".into());
                "MixedCase"
            }
            _ => "UTF-8",
        };
        label = "parameter name spellings";
        format!("{}={v}", wire::recase(r, name))
    } else if i < PNAMES.len() + VALUES.len() {
        let v = VALUES[i - PNAMES.len()];
        exp.value = Some(v);
        let val = gen::ext_value(r, Some(v));
        let mp = MProp {
            name: "X-a".into(),
            group: None,
            params: None,
            val: val.clone(),
        };
        prop = ("X-a", wire::value(r, &wire::PLAIN, &mp), val);
        label = "value type spellings";
        format!("VALUE={}", wire::recase(r, v))
    } else {
        let (tok, t) = &tokens[i - PNAMES.len() - VALUES.len()];
        exp.types = Some(vec![t.clone()]);
        label = "type spellings";
        format!("TYPE={}", wire::recase(r, tok))
    };
    let text = format!(
        "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n{group}{};{param}:{}\r\nEND:VCARD\r\n",
        prop.0, prop.1
    );
    cx.input = text.clone();
    let fnp = MProp {
        name: "FN".into(),
        group: None,
        params: None,
        val: MVal::Text("x".into()),
    };
    let p = MProp {
        name: prop.0.into(),
        group: (!group.is_empty()).then(|| "grP".to_string()),
        params: (exp != MParams::default()).then_some(exp),
        val: prop.2,
    };
    expect_parse("other letter case of a keyword", &text, &[vec![fnp, p]])?;
    cx.count(label);
    cx.seen(&text);
    Ok(())
}

/// The case of values is kept: two documents differing in the case of
/// one value differ there and only there.
fn kept(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let w = loop {
        let w = gen::alnum(r, 3, 10);
        if w.bytes().any(|b| b.is_ascii_alphabetic()) {
            break w;
        }
    };
    let v: String = wire::recase(r, &w);
    let (line, want) = match r.below(9) {
        0 => (format!("{v}.NOTE:a"), format!("group {v}")),
        1 => (format!("NOTE:{v}"), format!("text {v}")),
        2 => (format!("X-{v}:a"), format!("name X-{v}")),
        3 => (format!("x-{v}:a"), format!("name x-{v}")),
        4 => (format!("NOTE;ALTID={v}:a"), format!("altid {v}")),
        5 => (format!("NOTE;X-{v}=b:a"), format!("ext X-{v}")),
        6 => (format!("NOTE;X-Y=\"{v}\":a"), format!("extval {v}")),
        7 => (format!("NOTE;TYPE=X-{v}:a"), format!("type {v}")),
        _ => (format!("CATEGORIES:{v},z"), format!("item {v}")),
    };
    let text = format!("BEGIN:VCARD\nVERSION:4.0\nFN:x\n{line}\nEND:VCARD\n");
    cx.input = text.clone();
    let d = match vcard4::parse(&text) {
        Ok(c) => dump(&c[0]),
        Err(e) => return fail("rejected", text, format!("{e:?}")),
    };
    let mut seen = Vec::new();
    for p in &d {
        if p.name == "FN" {
            continue;
        }
        if let Some(g) = &p.group {
            seen.push(format!("group {g}"));
        }
        seen.push(format!("name {}", p.name));
        match &p.val {
            MVal::Text(s) => seen.push(format!("text {s}")),
            MVal::List(l) => seen.push(format!("item {}", l[0])),
            _ => {}
        }
        if let Some(q) = &p.params {
            if let Some(a) = &q.alt_id {
                seen.push(format!("altid {a}"));
            }
            for (n, l) in q.ext.iter().flatten() {
                seen.push(format!("ext {n}"));
                seen.push(format!("extval {}", l[0]));
            }
            for t in q.types.iter().flatten() {
                if let MType::Ext(s) = t {
                    seen.push(format!("type {s}"));
                }
            }
        }
    }
    if !seen.contains(&want) {
        return fail(
            "the case of a value changed",
            text,
            format!("expected {want}, observed {seen:?}"),
        );
    }
    cx.count("values with their case kept");
    cx.seen(&text);
    Ok(())
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "documents with keywords in other letter case, compared with the model (which keeps the case of values); non-trivial when the document was parsed and compared",
        fams: vec![
            fam("recased", recased, 50_000, 3_000_000),
            exhaustive("spellings", spellings, NAMES * 12),
            fam("keywords", keywords, 20_000, 500_000),
            fam("kept", kept, 20_000, 500_000),
            fam("reference", refer::names, 15_000, 2_000_000),
        ],
        must: vec![
            "name spellings",
            "parameter name spellings",
            "value type spellings",
            "type spellings",
        ],
    }
}
