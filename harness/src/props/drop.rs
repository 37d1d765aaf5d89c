//! C18: dropping wipes the owned text.

use super::text::p;
use super::*;
use crate::rng::Rng;
use crate::{alloc, gen, wire};
use vcard4::{Vcard, VcardBuilder};

/// Makes marked texts; remembers where each one stands.
struct Secrets {
    places: Vec<String>,
    long: bool,
}

impl Secrets {
    fn mark(&mut self, place: &str) -> String {
        let id = self.places.len();
        self.places.push(place.to_string());
        format!("{}{id:04x}", std::str::from_utf8(alloc::MARK).unwrap())
    }
    /// Letters and digits only.
    fn word(&mut self, r: &mut Rng, place: &str) -> String {
        let m = self.mark(place);
        let mut s = m.clone();
        for _ in 0..r.below(3) {
            s.push_str(&m);
        }
        s.push_str(&gen::alnum(r, 0, 5));
        s
    }
    /// Marked all over, so that nothing may remain of it.
    fn text(&mut self, r: &mut Rng, place: &str, junk: fn(&mut Rng) -> String) -> String {
        let m = self.mark(place);
        let n = if self.long && r.chance(1, 20) {
            200
        } else {
            r.range(1, 4)
        };
        let mut s = String::new();
        // texts that look like a URI may be delivered as an external type
        for i in 0..n {
            if r.bool() {
                s.push_str(&junk(r).replace(':', ";"));
            }
            s.push_str(&m);
            if i > 0 && r.chance(1, 3) {
                s.push_str(r.pick(&[",", ";", "\\", " ", "\u{e9}"]));
            }
        }
        if r.bool() {
            s.push_str(&junk(r).replace(':', ";"));
        }
        s
    }
}

fn short(r: &mut Rng) -> String {
    gen::text(r).chars().take(20).collect()
}
fn pshort(r: &mut Rng) -> String {
    gen::ptext(r).chars().take(20).collect()
}

/// Put marked text in every owned string of a property.
fn fill(r: &mut Rng, s: &mut Secrets, q: &mut MProp) {
    let n = q.name.clone();
    let kind = if gen::is_ext(&n) {
        "X-".to_string()
    } else {
        n.clone()
    };
    let at = |x: &str| format!("{kind} {x}");
    if gen::is_ext(&n) {
        q.name = format!(
            "{}{}",
            if r.bool() { "X-" } else { "x-" },
            s.word(r, "extension name")
        );
    }
    if q.group.is_some() || r.chance(1, 2) {
        q.group = Some(s.word(r, &at("group")));
    }
    let typed = q.params.as_ref().and_then(|p| p.value);
    match &mut q.val {
        MVal::Text(t) => *t = s.text(r, &at("text"), short),
        MVal::List(l) => {
            for t in l.iter_mut() {
                *t = s.text(r, &at("list item"), short);
            }
        }
        MVal::Adr(a) => {
            for t in a.iter_mut() {
                *t = Some(s.text(r, &at("component"), short));
            }
        }
        MVal::Gender(_, i) => *i = Some(s.text(r, &at("identity"), short)),
        #[cfg(not(feature = "language-tags"))]
        MVal::Lang(t) => *t = s.text(r, &at("language"), short),
        _ => {}
    }
    let mut m = q.params.take().unwrap_or_default();
    m.value = typed;
    let on = |r: &mut Rng| r.chance(1, 2);
    #[cfg(not(feature = "language-tags"))]
    {
        m.language = on(r).then(|| s.text(r, &at("LANGUAGE"), pshort));
    }
    #[cfg(not(feature = "mime"))]
    {
        m.media_type = on(r).then(|| s.text(r, &at("MEDIATYPE"), pshort));
    }
    if m.alt_id.is_some() || on(r) {
        m.alt_id = Some(s.text(r, &at("ALTID"), pshort));
    }
    if m.types.is_some() || (on(r) && gen::type_allowed(&n)) {
        let mut l: Vec<MType> = (0..r.range(1, 3))
            .map(|_| MType::Ext(s.word(r, &at("TYPE"))))
            .collect();
        if r.bool() {
            l.insert(r.below(l.len()), MType::Home);
        }
        m.types = Some(l);
    }
    if m.calscale.is_some() || on(r) {
        m.calscale = Some(s.text(r, &at("CALSCALE"), pshort));
    }
    if m.sort_as.is_some() || on(r) {
        m.sort_as = Some(
            (0..r.range(1, 3))
                .map(|_| s.text(r, &at("SORT-AS"), pshort))
                .collect(),
        );
    }
    if on(r) {
        m.tz = Some(MTz::Text(s.text(r, &at("TZ parameter"), pshort)));
    }
    if n == "ADR" && (m.label.is_some() || on(r)) {
        m.label = Some(s.text(r, &at("LABEL"), pshort));
    }
    if m.ext.is_some() || on(r) {
        m.ext = Some(
            (0..r.range(1, 2))
                .map(|_| {
                    (
                        format!("X-{}", s.word(r, &at("X- parameter name"))),
                        (0..r.range(1, 3))
                            .map(|_| s.text(r, &at("X- parameter value"), pshort))
                            .collect(),
                    )
                })
                .collect(),
        );
    }
    q.params = if m == MParams::default() {
        None
    } else {
        Some(m)
    };
}

/// A card with marked text everywhere.
fn secret_card(r: &mut Rng, s: &mut Secrets, mut card: MCard) -> MCard {
    for q in card.iter_mut() {
        fill(r, s, q);
    }
    card
}

/// All marks found in the owned text of a card.
fn visible(c: &Vcard) -> usize {
    let t = format!("{c:?}");
    t.matches(std::str::from_utf8(alloc::MARK).unwrap()).count()
}

fn judge(cx: &mut Cx, how: &str, w: &alloc::Watched, s: &Secrets, input: &str) -> R {
    cx.add("blocks watched", w.blocks);
    cx.add("bytes watched", w.bytes);
    cx.count(how);
    if w.count > 0 {
        let mut at: Vec<String> = w
            .leaks
            .iter()
            .map(|i| {
                s.places
                    .get(*i as usize)
                    .cloned()
                    .unwrap_or_else(|| format!("#{i}"))
            })
            .collect();
        at.sort();
        at.dedup();
        return fail(
            format!("text remains in memory after a drop ({how})"),
            input,
            format!("{} times, of: {at:?}", w.count),
        );
    }
    Ok(())
}

/// The different ways to get rid of a card.
fn dispose(cx: &mut Cx, card: Vcard, s: &Secrets, input: &str) -> R {
    let n = visible(&card);
    cx.add("marks in the cards dropped", n as u64);
    if n == 0 {
        return Ok(());
    }
    let kind = cx.rng.below(6);
    let r = &mut cx.rng;
    match kind {
        0 => {
            let w = alloc::watch(|| drop(card));
            judge(cx, "drop", &w, s, input)
        }
        1 => {
            let c = card.clone();
            let w = alloc::watch(|| drop(card));
            judge(cx, "drop of the original", &w, s, input)?;
            let w = alloc::watch(|| drop(c));
            judge(cx, "drop of a clone", &w, s, input)
        }
        2 => {
            let mut slot = card;
            let other = Vcard::new("x".to_string());
            let w = alloc::watch(|| slot = other);
            judge(cx, "overwritten", &w, s, input)
        }
        3 => {
            let b = Box::new(vec![Some(card.clone()), None, Some(card)]);
            let w = alloc::watch(|| drop(b));
            judge(cx, "drop in a list", &w, s, input)
        }
        4 => {
            // on a panic
            let w = alloc::watch(|| {
                let _ = catch(|| {
                    let _card = card;
                    if std::hint::black_box(true) {
                        std::panic::panic_any("unwinding");
                    }
                });
            });
            judge(cx, "drop while unwinding", &w, s, input)
        }
        _ => {
            let mut card = card;
            let w = parts(r, &mut card);
            for (how, w) in w {
                judge(cx, how, &w, s, input)?;
            }
            let w = alloc::watch(|| drop(card));
            judge(cx, "drop of the rest", &w, s, input)
        }
    }
}

/// Take things out of a card and drop them one by one.
fn parts(r: &mut Rng, c: &mut Vcard) -> Vec<(&'static str, alloc::Watched)> {
    use vcard4::property::*;
    let mut out = Vec::new();
    macro_rules! taken {
        ($how:expr, $x:expr) => {{
            let x = $x;
            out.push(($how, alloc::watch(|| drop(x))));
        }};
    }
    macro_rules! each {
        ($f:ident) => {
            if r.chance(1, 3) {
                if let Some(p) = c.$f.first() {
                    taken!("a property taken", p.clone());
                }
            }
            if r.bool() && !c.$f.is_empty() {
                let i = r.below(c.$f.len());
                taken!("a property removed", c.$f.remove(i));
            } else if r.chance(1, 3) {
                taken!("a list taken", std::mem::take(&mut c.$f));
            } else if r.chance(1, 3) {
                let v = &mut c.$f;
                out.push(("a list cleared", alloc::watch(|| v.clear())));
            }
        };
    }
    macro_rules! params {
        ($f:ident) => {
            for p in c.$f.iter_mut() {
                if r.chance(1, 3) {
                    taken!("parameters taken", p.parameters.take());
                }
            }
        };
    }
    params!(source);
    params!(xml);
    params!(formatted_name);
    params!(nickname);
    params!(url);
    params!(address);
    params!(email);
    params!(impp);
    params!(lang);
    params!(title);
    params!(role);
    params!(logo);
    params!(org);
    params!(member);
    params!(categories);
    params!(note);
    params!(sound);
    params!(geo);
    params!(fburl);
    params!(cal_adr_uri);
    params!(cal_uri);
    params!(client_pid_map);
    params!(extensions);
    for e in &c.extensions {
        taken!("a value taken", e.value.clone());
        if let Some(p) = &e.parameters {
            taken!("types taken", p.types.clone());
            taken!("a time zone taken", p.timezone.clone());
        }
    }
    for a in &c.address {
        taken!("an address taken", a.value.clone());
    }
    if let Some(g) = &c.gender {
        taken!("a gender taken", g.value.clone());
    }
    for t in c
        .tel
        .iter_mut()
        .chain(c.related.iter_mut())
        .chain(c.key.iter_mut())
    {
        let p = match t {
            TextOrUriProperty::Text(p) => p.parameters.take(),
            TextOrUriProperty::Uri(p) => p.parameters.take(),
        };
        taken!("parameters taken", p);
    }
    each!(source);
    each!(xml);
    each!(formatted_name);
    each!(nickname);
    each!(photo);
    each!(url);
    each!(address);
    each!(tel);
    each!(email);
    each!(impp);
    each!(lang);
    each!(title);
    each!(role);
    each!(logo);
    each!(org);
    each!(member);
    each!(related);
    each!(timezone);
    each!(geo);
    each!(categories);
    each!(note);
    each!(sound);
    each!(client_pid_map);
    each!(key);
    each!(fburl);
    each!(cal_adr_uri);
    each!(cal_uri);
    each!(extensions);
    taken!("an option taken", c.kind.take());
    taken!("an option taken", c.name.take());
    taken!("an option taken", c.bday.take());
    taken!("an option taken", c.anniversary.take());
    taken!("an option taken", c.gender.take());
    taken!("an option taken", c.prod_id.take());
    taken!("an option taken", c.rev.take());
    taken!("an option taken", c.uid.take());
    out
}

/// Get a card in one of the ways there are.
fn obtain(cx: &mut Cx, m: &MCard) -> Result<(Vec<Vcard>, String), Fail> {
    let route = cx.rng.below(6);
    if route == 0 {
        cx.count("built");
        return match build(m) {
            Ok(c) => Ok((vec![c], format!("{m:?}"))),
            Err(e) => fail("model", format!("{m:?}"), e),
        };
    }
    let r = &mut cx.rng;
    let st = match r.below(3) {
        0 => wire::PLAIN,
        1 => wire::FULL,
        _ => wire::Style::random(r),
    };
    let mut text = wire::document(r, &st, std::slice::from_ref(m));
    if route == 5 {
        // lines in error around
        let end = text.to_ascii_lowercase().rfind("\nend:vcard");
        if let Some(i) = end.filter(|i| text[i + 10..].trim().is_empty()) {
            text.insert_str(i + 1, "X-A;VALUE=integer:x\r\n");
        }
    }
    let got = match route {
        1 => vcard4::parse(&text),
        2 | 5 => vcard4::parse_loose(&text),
        3 => vcard4::iter(&text, true).collect(),
        _ => Vcard::try_from(&text[..]).map(|c| vec![c]),
    };
    cx.count(match route {
        1 => "parsed",
        2 | 5 => "parsed loosely",
        3 => "iterated",
        _ => "try_from",
    });
    match got {
        Ok(c) => Ok((c, text)),
        Err(e) => fail("a valid card is rejected", &text, e.to_string()),
    }
}

/// The monitor itself: ordinary strings are seen.
fn control(cx: &mut Cx) -> R {
    alloc::clean();
    let mut s = Secrets {
        places: vec![],
        long: false,
    };
    let t = s
        .text(&mut cx.rng, "control", short)
        .replace("0000", "cccc");
    let n = t.matches(std::str::from_utf8(alloc::MARK).unwrap()).count();
    let w = alloc::watch(|| drop(t));
    if w.count != n || n == 0 {
        return Err(Fail {
            what: "harness: the monitor does not see a plain string".into(),
            input: String::new(),
            detail: format!("{n} marks, {w:?}"),
        });
    }
    cx.count("controls");
    Ok(())
}

/// Each property alone with everything filled.
fn single(cx: &mut Cx) -> R {
    control(cx)?;
    let i = cx.idx as usize % (FIELDS.len() + 2 * VALUES.len());
    let r = &mut cx.rng;
    let mut s = Secrets {
        places: vec![],
        long: true,
    };
    let q = if i < FIELDS.len() {
        gen::prop(r, FIELDS[i], 50)
    } else {
        // an extension of a type
        let ty = VALUES[(i - FIELDS.len()) % VALUES.len()];
        MProp {
            params: Some(MParams {
                value: Some(ty),
                ..Default::default()
            }),
            ..p("X-A", gen::ext_value(r, Some(ty)))
        }
    };
    let mut m = vec![p("FN", MVal::Text("x".into()))];
    if q.name == "MEMBER" {
        m.push(p("KIND", MVal::Kind("group")));
    }
    m.push(q);
    for q in m.iter_mut().skip(1) {
        fill(r, &mut s, q);
    }
    let (cards, input) = obtain(cx, &m)?;
    cx.seen(&input);
    for c in cards {
        dispose(cx, c, &s, &input)?;
    }
    Ok(())
}

const COUNTS: [usize; 15] = [2, 5, 8, 9, 16, 17, 32, 33, 64, 100, 128, 200, 256, 300, 1025];

/// Many of one thing, every one of them marked.
fn quantities(cx: &mut Cx) -> R {
    alloc::clean();
    let n = COUNTS[cx.idx as usize / 12];
    let r = &mut cx.rng;
    let mut s = Secrets {
        places: vec![],
        long: false,
    };
    let mut m = vec![p("FN", MVal::Text("x".into()))];
    let par = |m: MParams| MProp {
        params: Some(m),
        ..p("TEL", MVal::Text("1".into()))
    };
    let d = MParams::default;
    match cx.idx % 12 {
        0 => m.push(p("CATEGORIES", MVal::List((0..n).map(|_| s.word(r, "category")).collect()))),
        1 => m.push(p("ORG", MVal::List((0..n).map(|_| s.word(r, "organization")).collect()))),
        2 => m.push(par(MParams {
            types: Some((0..n).map(|_| MType::Ext(s.word(r, "TYPE"))).collect()),
            ..d()
        })),
        3 => m.push(par(MParams {
            ext: Some(vec![(
                "X-A".into(),
                (0..n).map(|_| s.word(r, "X- parameter value")).collect(),
            )]),
            ..d()
        })),
        4 => m.push(par(MParams {
            ext: Some(
                (0..n)
                    .map(|_| (format!("X-{}", s.word(r, "name")), vec![s.word(r, "value")]))
                    .collect(),
            ),
            ..d()
        })),
        5 => m.push(MProp {
            params: Some(MParams {
                sort_as: Some((0..n).map(|_| s.word(r, "SORT-AS")).collect()),
                ..d()
            }),
            ..p("ORG", MVal::List(vec!["a".into()]))
        }),
        6 => (0..n).for_each(|_| m.push(p("NOTE", MVal::Text(s.word(r, "NOTE"))))),
        7 => (0..n).for_each(|_| {
            m.push(p(&format!("X-{}", s.word(r, "X- name")), MVal::Text(s.word(r, "X- text"))))
        }),
        8 => (0..n).for_each(|_| {
            m.push(MProp {
                group: Some(s.word(r, "group")),
                ..p("EMAIL", MVal::Text(s.word(r, "EMAIL")))
            })
        }),
        9 => {
            let w = s.word(r, "a long text");
            m.push(p("NOTE", MVal::Text(w.repeat(n))))
        }
        10 => (0..n).for_each(|_| {
            let mut a: [Option<String>; 7] = Default::default();
            for x in &mut a {
                *x = Some(s.word(r, "ADR"));
            }
            m.push(p("ADR", MVal::Adr(a)))
        }),
        _ => m.push(MProp {
            params: Some(MParams {
                label: Some(s.word(r, "LABEL").repeat(n)),
                alt_id: Some(s.word(r, "ALTID").repeat(n)),
                ..d()
            }),
            ..p("ADR", MVal::Adr(Default::default()))
        }),
    }
    let (cards, input) = obtain(cx, &m)?;
    cx.seen(&input);
    cx.count("quantities");
    for c in cards {
        dispose(cx, c, &s, &input)?;
    }
    Ok(())
}

fn whole(cx: &mut Cx) -> R {
    alloc::clean();
    let r = &mut cx.rng;
    let mut s = Secrets {
        places: vec![],
        long: true,
    };
    let m = gen::card(r);
    let m = secret_card(r, &mut s, m);
    let (cards, input) = obtain(cx, &m)?;
    cx.seen(&input);
    for c in cards {
        dispose(cx, c, &s, &input)?;
    }
    Ok(())
}

/// Cards from the builder.
fn builder(cx: &mut Cx) -> R {
    alloc::clean();
    let r = &mut cx.rng;
    let mut s = Secrets {
        places: vec![],
        long: true,
    };
    let mut b = VcardBuilder::new(s.text(r, "FN", short));
    let mut calls = String::new();
    for _ in 0..r.range(1, 12) {
        let k = r.below(13);
        calls.push_str(&format!("{k} "));
        b = match k {
            0 => b.xml(s.text(r, "XML", short)),
            1 => b.formatted_name(s.text(r, "FN", short)),
            2 => {
                let n: Vec<String> = (0..5).map(|_| s.text(r, "N", short)).collect();
                b.name(n.try_into().unwrap())
            }
            3 => b.nickname(s.text(r, "NICKNAME", short)),
            4 => b.gender(&format!("M;{}", s.word(r, "GENDER"))),
            5 => b.address(vcard4::property::DeliveryAddress {
                po_box: Some(s.text(r, "ADR", short)),
                extended_address: Some(s.text(r, "ADR", short)),
                street_address: Some(s.text(r, "ADR", short)),
                locality: Some(s.text(r, "ADR", short)),
                region: Some(s.text(r, "ADR", short)),
                postal_code: Some(s.text(r, "ADR", short)),
                country_name: Some(s.text(r, "ADR", short)),
            }),
            6 => b.telephone(s.text(r, "TEL", short)),
            7 => b.email(s.text(r, "EMAIL", short)),
            8 => b.timezone(s.text(r, "TZ", short)),
            9 => b.title(s.text(r, "TITLE", short)),
            10 => b.org(vec![s.text(r, "ORG", short), s.text(r, "ORG", short)]),
            11 => b.categories(vec![s.text(r, "CATEGORIES", short)]),
            _ => b.note(s.text(r, "NOTE", short)),
        };
    }
    let drop_builder = r.chance(1, 4);
    let card = b.finish();
    cx.count("from the builder");
    cx.seen(&calls);
    if drop_builder {
        // written first: writing must not spoil the wiping
        let t = card.to_string();
        drop(t);
    }
    dispose(cx, card, &s, &calls)
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "marked text stands in every owned string of a card; an instrumented allocator reads every heap block freed while the card or a part of it is dropped, and no mark may be left in it",
        fams: vec![
            fam("single", single, 20_000, 800_000),
            exhaustive("quantities", quantities, 12 * COUNTS.len() as u64),
            fam("whole", whole, 8000, 400_000),
            fam("builder", builder, 6000, 200_000),
        ],
        must: vec![
            "controls", "built", "parsed", "parsed loosely", "iterated",
            "try_from", "from the builder", "drop", "drop of a clone",
            "overwritten", "drop in a list", "drop while unwinding",
            "a property taken", "parameters taken", "a value taken",
            "marks in the cards dropped", "blocks watched",
        ],
    }
}
