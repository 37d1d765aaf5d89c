//! Shapes of input: a head, a unit that is repeated, and a tail.  In the
//! unit `{#}` stands for the number of the repetition and `{~}` for letters
//! that are scattered, both of a fixed width, so that the repetitions may be
//! different from each other.

pub struct Shape {
    pub name: String,
    pub head: String,
    pub unit: String,
    pub tail: String,
}

impl Shape {
    pub fn of(&self, size: usize) -> String {
        let fixed = self.head.len() + self.tail.len();
        let numbered = self.unit.contains("{#}") || self.unit.contains("{~}");
        let unit = self.one(0);
        let k = (size.saturating_sub(fixed) / unit.len().max(1)).max(1);
        let mut s = String::with_capacity(fixed + k * unit.len());
        s.push_str(&self.head);
        for i in 0..k {
            if numbered {
                s.push_str(&self.one(i));
            } else {
                s.push_str(&unit);
            }
        }
        s.push_str(&self.tail);
        s
    }

    fn one(&self, i: usize) -> String {
        let number = format!("{:05}", 10_000 + i % 90_000);
        // 7919 has no factor in common with 26^4
        let mut x = i * 7919 % 456_976;
        let letters: String = (0..4)
            .map(|_| {
                let c = (b'A' + (x % 26) as u8) as char;
                x /= 26;
                c
            })
            .collect();
        self.unit.replace("{#}", &number).replace("{~}", &letters)
    }
}

const HEAD: &str = "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n";
const TAIL: &str = "END:VCARD\r\n";

fn raw(name: &str, head: &str, unit: &str, tail: &str) -> Shape {
    Shape {
        name: name.into(),
        head: head.into(),
        unit: unit.into(),
        tail: tail.into(),
    }
}

/// Inside one property.
fn within(name: &str, before: &str, unit: &str, after: &str) -> Shape {
    raw(
        name,
        &format!("{HEAD}{before}"),
        unit,
        &format!("{after}\r\n{TAIL}"),
    )
}

/// Whole lines.
fn lines(name: &str, unit: &str) -> Shape {
    raw(name, HEAD, unit, TAIL)
}

pub fn known() -> Vec<Shape> {
    let mut v = Vec::new();
    // one long value
    for (n, u) in [
        ("letters", "abcdefgh"),
        ("spaces", " "),
        ("tabs", "\t"),
        ("escaped newlines", "\\n"),
        ("escaped commas", "\\,"),
        ("escaped backslashes", "\\\\"),
        ("escaped semicolons", "\\;"),
        ("lone backslashes", "\\x"),
        ("commas", ","),
        ("semicolons", ";"),
        ("colons", ":"),
        ("quotes", "\""),
        ("equals", "="),
        ("dots", "a."),
        ("accents", "\u{e9}"),
        ("clusters", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}"),
        ("one cluster", "\u{301}"),
        ("flags", "\u{1f1e9}\u{1f1ea}"),
        ("wide", "\u{65e5}\u{672c}"),
        ("carriage returns", "\r"),
        ("folds", "a\r\n "),
        ("empty folds", "\r\n "),
        ("tab folds", "ab\n\t"),
        ("folds in escapes", "\\\r\n n"),
        ("names", "NOTE"),
        ("ends", "END:VCARD"),
        ("parameters", ";TYPE=home"),
        ("digits", "0123456789"),
    ] {
        for p in ["NOTE", "CATEGORIES", "ADR", "X-A", "ORG", "N"] {
            if p == "NOTE" || matches!(n, "commas" | "semicolons" | "escaped commas" | "folds" | "letters") {
                v.push(within(&format!("{p} of {n}"), &format!("{p}:"), u, ""));
            }
        }
    }
    v.push(within("long GENDER", "GENDER:M;", "ab", ""));
    v.push(within("long URL", "URL:http://example.com/", "ab/", ""));
    v.push(within("long query", "URL:http://example.com/?", "a=b&", ""));
    v.push(within("long escapes in URL", "URL:http://example.com/", "%41", ""));
    v.push(within("long data URI", "PHOTO:data:image/jpeg;base64,", "QUJD", ""));
    v.push(within("long photo", "PHOTO;ENCODING=b;TYPE=JPEG:", "QUJD", ""));
    v.push(within("folded photo", "PHOTO;ENCODING=b;TYPE=JPEG:", "QUJDQUJD\r\n ", ""));
    v.push(within("long TEL", "TEL:", "1 ", ""));
    v.push(within("long TZ", "TZ:", "Europe/", ""));
    v.push(within("long REV", "REV:", "2", ""));
    v.push(within("long KIND", "KIND:x-", "ab", ""));
    v.push(within("long LANG", "LANG:en", "-abcdefgh", ""));
    v.push(within("long CLIENTPIDMAP", "CLIENTPIDMAP:1;urn:", "a", ""));
    v.push(within("long MEMBER", "KIND:group\r\nMEMBER:urn:", "a", ""));
    // lists of values
    for (ty, u) in [
        ("integer", "1,"),
        ("float", "1.5,"),
        ("date", "20200102,"),
        ("time", "102030,"),
        ("date-time", "20200102T102030Z,"),
        ("date-and-or-time", "20200102T102030+0100,"),
        ("date-and-or-time", "T10,"),
        ("timestamp", "20200102T102030Z,"),
        ("boolean", "true,"),
        ("utc-offset", "+0100,"),
    ] {
        let last = u.trim_end_matches(',');
        v.push(within(&format!("list of {ty} {last}"), &format!("X-A;VALUE={ty}:"), u, last));
    }
    v.push(within("list in BDAY", "BDAY:", "20200102,", "2020"));
    // parameters
    for (n, u) in [
        ("TYPE", ";TYPE=home"),
        ("TYPE x", ";TYPE=X-abc"),
        ("ALTID", ";ALTID=1"),
        ("X-", ";X-A=b"),
        ("quoted X-", ";X-A=\"b,c:d\""),
        ("PID", ";PID=1.1"),
        ("SORT-AS", ";SORT-AS=a,b"),
        ("TZ", ";TZ=Europe/Berlin"),
        ("unknown", ";FOO=bar"),
    ] {
        v.push(within(&format!("many {n} parameters"), "TEL", u, ":1"));
    }
    for (n, b, u, a) in [
        ("TYPE list", "TEL;TYPE=home", ",work", ":1"),
        ("quoted TYPE list", "TEL;TYPE=\"home", ",work", "\":1"),
        ("PID list", "TEL;PID=1", ",2.3", ":1"),
        ("SORT-AS list", "N;SORT-AS=a", ",b", ":a;b;c;d;e"),
        ("X- list", "TEL;X-A=a", ",b", ":1"),
        ("long quoted", "TEL;ALTID=\"", "ab", "\":1"),
        ("quoted delimiters", "TEL;ALTID=\"", ":;,", "\":1"),
        ("long unquoted", "TEL;ALTID=", "ab", ":1"),
        ("escapes unquoted", "TEL;ALTID=", "\\n", ":1"),
        ("escapes quoted", "TEL;ALTID=\"", "\\\\", "\":1"),
        ("LABEL", "ADR;LABEL=\"", "Mr\\n", "\":;;;;;;"),
        ("GEO parameter", "TEL;GEO=\"geo:1,2;", "a=b;", "\":1"),
        ("TZ parameter", "TEL;TZ=", "a/", ":1"),
        ("X- name", "TEL;X-", "AB", "=1:1"),
        ("MEDIATYPE", "SOUND;MEDIATYPE=a/", "b", ":a:b"),
        ("LANGUAGE", "NOTE;LANGUAGE=en", "-abcdefgh", ":x"),
        ("extension name", "X-", "AB", ":1"),
        ("group", "a", "bc", ".NOTE:1"),
        ("unterminated quote", "TEL;ALTID=\"", "ab", ":1"),
        ("unterminated quotes", "TEL;ALTID=\"a", ":1\r\nTEL;ALTID=\"a", ":1"),
        ("semicolons for a name", "", ";", ":1"),
        ("bad name", "", "AB", ":1"),
        ("fold in a name", "NOT", "\r\n ", "E:1"),
        ("fold in a parameter", "NOTE;ALT", "\r\n\t", "ID=1:1"),
        ("control characters", "NOTE:", "\u{1}", ""),
        ("control characters around", "NOTE:", "ab\u{7}", ""),
    ] {
        v.push(within(n, b, u, a));
    }
    // lines
    for (n, u) in [
        ("NOTE", "NOTE:1\r\n"),
        ("TEL", "TEL:1\r\n"),
        ("TEL URI", "TEL;VALUE=uri:tel:1\r\n"),
        ("URL", "URL:a:b\r\n"),
        ("X-", "X-A:1\r\n"),
        ("X- typed", "X-A;VALUE=date:2020\r\n"),
        ("grouped", "a.NOTE:1\r\n"),
        ("FN", "FN:1\n"),
        ("EMAIL", "EMAIL;TYPE=home:a@b\r\n"),
        ("ADR", "ADR:;;;;;;\r\n"),
        ("CATEGORIES", "CATEGORIES:a,b\r\n"),
        ("ORG", "ORG:a;b\r\n"),
        ("LANG", "LANG:en\r\n"),
        ("PHOTO", "PHOTO:a:b\r\n"),
        ("jpeg", "PHOTO;ENCODING=b;TYPE=JPEG:QUJD\r\n"),
        ("KEY", "KEY:x\r\n"),
        ("RELATED", "RELATED;TYPE=friend:x\r\n"),
        ("CLIENTPIDMAP", "CLIENTPIDMAP:1;a:b\r\n"),
        ("TZ", "TZ;VALUE=utc-offset:+0100\r\n"),
        ("IMPP", "IMPP:a:b\r\n"),
        ("GEO", "GEO:geo:1,2\r\n"),
        ("escaped", "NOTE:\\n\r\n"),
        ("folded", "NOTE:a\r\n b\r\n"),
        ("with parameters", "NOTE;ALTID=1;LANGUAGE=en;PREF=2;PID=1.1:x\r\n"),
        ("URI with parameters", "URL;PREF=1;MEDIATYPE=a/b:a:b\r\n"),
        ("second N", "N:a;b;c;d;e\r\n"),
        ("second REV", "REV:20200102T000000Z\r\n"),
        ("second UID", "UID:1\r\n"),
        // in error
        ("unknown", "FOO:1\r\n"),
        ("bad value", "REV:x\r\n"),
        ("bad parameter", "NOTE;FOO=1:x\r\n"),
        ("bad PREF", "NOTE;PREF=0:x\r\n"),
        ("bad URI", "URL:x\r\n"),
        ("no delimiter", "NOTE\r\n"),
        ("no name", ":x\r\n"),
        ("open quote", "NOTE;ALTID=\"x:y\r\n"),
        ("control", "NOTE:\u{1}\r\n"),
        ("control in a name", "\u{1}:x\r\n"),
        ("junk", "?\r\n"),
        ("blank", "\r\n"),
        ("blank LF", "\n"),
        ("space", " \r\n"),
        ("only a group", "a.\r\n"),
        ("VERSION", "VERSION:4.0\r\n"),
        ("BEGIN", "BEGIN:VCARD\r\n"),
        ("END", "END:VCARD\r\n"),
        ("folded junk", "?\r\n ?\r\n"),
        ("bad typed", "X-A;VALUE=integer:x\r\n"),
        ("bad TYPE", "REV;TYPE=home:20200102T000000Z\r\n"),
        ("bad escapes", "FOO:\\n\\,\r\n"),
        ("unknown VALUE", "X-A;VALUE=foo:x\r\n"),
        ("MEMBER", "MEMBER:a:b\r\n"),
    ] {
        v.push(lines(&format!("lines: {n}"), u));
    }
    // repetitions that differ
    for (n, u) in [
        ("X-", "X-{~}:1\r\n"),
        ("X- in order", "X-{#}:1\r\n"),
        ("grouped", "{~}.NOTE:1\r\n"),
        ("grouped X-", "g{#}.X-{~};X-{~}={~}:{#}\r\n"),
        ("NOTE", "NOTE:{~}\r\n"),
        ("FN", "FN:{#}\r\n"),
        ("TEL", "TEL:{#}\r\n"),
        ("TEL URI", "TEL;VALUE=uri:tel:{#}\r\n"),
        ("EMAIL", "EMAIL:{~}@{~}\r\n"),
        ("URL", "URL:http://{~}/{#}\r\n"),
        ("SOURCE", "SOURCE:http://{~}/{#}\r\n"),
        ("PHOTO", "PHOTO:http://{~}/{#}\r\n"),
        ("jpeg", "PHOTO;ENCODING=b;TYPE=JPEG:{~}\r\n"),
        ("KEY", "KEY:{~}\r\n"),
        ("RELATED", "RELATED;TYPE=friend:{~}\r\n"),
        ("CLIENTPIDMAP", "CLIENTPIDMAP:1{#};urn:{~}\r\n"),
        ("PID", "NOTE;PID={#}.{#}:1\r\n"),
        ("ALTID", "NOTE;ALTID={#};LANGUAGE=en:{~}\r\n"),
        ("TYPE", "TEL;TYPE=X-{~},home:1\r\n"),
        ("ADR", "ADR;LABEL=\"{~}\":;;{~};{#};;;\r\n"),
        ("CATEGORIES", "CATEGORIES:{~},{#}\r\n"),
        ("NICKNAME", "NICKNAME:{~},{#}\r\n"),
        ("ORG", "ORG;SORT-AS={~}:{~};{#}\r\n"),
        ("LANG", "LANG:en-{~}\r\n"),
        ("IMPP", "IMPP:xmpp:{~}@{#}\r\n"),
        ("XML", "XML:<a>{~}</a>\r\n"),
        ("TZ", "TZ:{~}/{~}\r\n"),
        ("REV", "REV:{#}0102T000000Z\r\n"),
        ("UID", "UID:{~}\r\n"),
        ("unknown", "{~}{~}:1\r\n"),
        ("unknown parameter", "NOTE;{~}{~}=1:x\r\n"),
        ("unknown VALUE", "X-A;VALUE={~}:x\r\n"),
        ("bad TYPE", "TEL;TYPE={~}:x\r\n"),
        ("bad dates", "REV:{#}\r\n"),
        ("dates", "X-A;VALUE=date:{#}\r\n"),
        ("LANGUAGE", "NOTE;LANGUAGE=en-{~}:x\r\n"),
    ] {
        v.push(lines(&format!("different lines: {n}"), u));
    }
    for (n, b, u, a) in [
        ("X- parameters", "TEL", ";X-{~}={#}", ":1"),
        ("X- parameters in order", "TEL", ";X-{#}=1", ":1"),
        ("unknown parameters", "TEL", ";{~}={#}", ":1"),
        ("X- values", "TEL;X-A=a", ",{~}", ":1"),
        ("TYPE values", "TEL;TYPE=home", ",X-{~}", ":1"),
        ("TYPE parameters", "TEL", ";TYPE=X-{~}", ":1"),
        ("PID values", "TEL;PID=1", ",{#}.{#}", ":1"),
        ("PID parameters", "TEL", ";PID={#}", ":1"),
        ("SORT-AS values", "N;SORT-AS=a", ",{~}", ":a;b;c;d;e"),
        ("CATEGORIES", "CATEGORIES:a", ",{~}", ""),
        ("NICKNAME", "NICKNAME:a", ",{#}", ""),
        ("ORG", "ORG:a", ";{~}", ""),
        ("N", "N:a", ",{~}", ";b;c;d;e"),
        ("ADR", "ADR:;;a", ",{~}", ";;;;"),
        ("integers", "X-A;VALUE=integer:1", ",{#}", ""),
        ("floats", "X-A;VALUE=float:1", ",1.{#}", ""),
        ("words", "NOTE:", "{~} ", ""),
        ("folds", "NOTE:", "{~}\r\n ", ""),
        ("escapes", "NOTE:", "{~}\\n", ""),
        ("URI", "URL:http://a/", "{~}/", ""),
        ("query", "URL:http://a/?", "{~}={#}&", ""),
    ] {
        v.push(within(&format!("different {n}"), b, u, a));
    }
    for (n, u) in [
        ("cards", format!("{HEAD}NOTE:{{~}}\r\n{TAIL}")),
        ("cards with UID", format!("{HEAD}UID:urn:{{~}}\r\nN:{{~}};{{#}};;;\r\n{TAIL}")),
        ("cards with X-", format!("{HEAD}X-{{~}}:{{#}}\r\n{TAIL}")),
        ("groups", "BEGIN:VCARD\nVERSION:4.0\nKIND:group\nFN:{~}\nMEMBER:urn:{~}\nEND:VCARD\n".into()),
        ("bad cards", format!("{HEAD}{{~}}:1\r\n{TAIL}")),
        ("cards without END", format!("{HEAD}NOTE:{{~}}\r\n")),
        ("cards without FN", "BEGIN:VCARD\nVERSION:4.0\nUID:{~}\nEND:VCARD\n".into()),
    ] {
        v.push(raw(&format!("different {n}"), "", &u, ""));
    }
    v.push(within("different members", "KIND:group\r\nMEMBER:a:b", "\r\nMEMBER:urn:{~}", ""));
    // cards
    let card = format!("{HEAD}{TAIL}");
    for (n, h, u, t) in [
        ("cards", "", &card[..], ""),
        ("cards and blanks", "", "BEGIN:VCARD\nVERSION:4.0\nFN:x\nEND:VCARD\n\n\n", ""),
        ("cards without FN", "", "BEGIN:VCARD\nVERSION:4.0\nEND:VCARD\n", ""),
        ("cards without END", "", HEAD, ""),
        ("cards without END, then a good one", "", HEAD, TAIL),
        ("cards without VERSION", "", "BEGIN:VCARD\nFN:x\nEND:VCARD\n", ""),
        ("cards in error", "", "BEGIN:VCARD\nVERSION:4.0\nFN:x\nREV:x\nEND:VCARD\n", ""),
        ("only BEGIN", "", "BEGIN:VCARD\r\n", ""),
        ("only END", "", "END:VCARD\r\n", ""),
        ("BEGIN without line breaks", "", "BEGIN:VCARD", ""),
        ("no cards", "", "NOTE:x\n", ""),
        ("no lines", "", "x", ""),
        ("newlines", "", "\n", ""),
        ("returns", "", "\r", ""),
        ("newlines before", "", "\r\n", &card[..]),
        ("newlines after", &card[..], "\r\n", ""),
        ("junk after", &card[..], "x\r\n", ""),
        ("junk before", "", "x\r\n", &card[..]),
        ("spaces", "", " ", ""),
        ("quotes", "", "\"", ""),
        ("no end", HEAD, "NOTE:x\r\n", ""),
        ("no end, bad lines", HEAD, "NOTE;x\r\n", ""),
        ("no end, a value", &format!("{HEAD}NOTE:")[..], "x", ""),
        ("no end, folds", &format!("{HEAD}NOTE:")[..], "\r\n ", ""),
        ("open quotes over cards", "", "BEGIN:VCARD\nVERSION:4.0\nFN;ALTID=\"x:y\nEND:VCARD\n", ""),
        ("bad first, then many lines", "BEGIN:VCARD\nVERSION:4.0\nREV:x\n", "NOTE:x\n", TAIL),
        ("misplaced", HEAD, "BEGIN:VCARD\nVERSION:4.0\nFN:x\nEND:VCARD\n", TAIL),
        ("folded BEGIN", "", "BEGIN:\n VCARD\nVERSION:4.0\nFN:x\nEND:VCARD\n", ""),
        ("version 3", "", "BEGIN:VCARD\nVERSION:3.0\nFN:x\nEND:VCARD\n", ""),
        ("version 2", "", "BEGIN:VCARD\nVERSION:2.1\nFN:x\nEND:VCARD\n", ""),
    ] {
        v.push(raw(&format!("stream: {n}"), h, u, t));
    }
    v
}

const DICT: [&str; 64] = [
    "\r\n", "\n", "\r", " ", "\t", "\r\n ", "\n\t", ":", ";", ",", "=", "\"",
    "\\", "\\n", "\\,", "\\;", "\\\\", ".", "a", "ABC", "x", "1", "-", "+",
    "\u{e9}", "\u{301}", "\u{1f468}\u{200d}", "\u{1}", "BEGIN:VCARD\n",
    "END:VCARD\n", "VERSION:4.0\n", "FN:x\n", "NOTE:", "NOTE;", "X-A", "X-A:",
    "TEL:", "TEL;VALUE=uri:", "tel:1", ";TYPE=home", ";TYPE=\"a,b\"", ";PREF=1",
    ";X-B=c", ";ALTID=", "a.", "REV:", "20200102", "T102030Z", "URL:",
    "http://a.b/", "CATEGORIES:", "ADR:", "ORG:", "PHOTO:", "KIND:group\n",
    "MEMBER:a:b\n", "GENDER:M;", "LANG:en\n", ";VALUE=integer:", "BDAY:",
    "{~}", "{#}", "X-{~}:", ";X-{#}=",
];

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// A random unit in a random place.
pub fn random(seed: u64, i: u64) -> Shape {
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ i.wrapping_mul(0xff51_afd7_ed55_8ccd));
    r.next();
    let mut unit = String::new();
    for _ in 0..1 + r.below(6) {
        unit.push_str(DICT[r.below(DICT.len())]);
    }
    let (head, tail): (String, String) = match r.below(5) {
        0 => (String::new(), String::new()),
        1 => (HEAD.into(), TAIL.into()),
        2 => (HEAD.into(), String::new()),
        3 => (format!("{HEAD}{}", DICT[28 + r.below(32)]), format!("\r\n{TAIL}")),
        _ => {
            // every unit is a line or a card
            if r.below(2) == 0 {
                unit.push_str("\r\n");
                (HEAD.into(), TAIL.into())
            } else {
                unit = format!("{HEAD}{unit}\r\n{TAIL}");
                (String::new(), String::new())
            }
        }
    };
    Shape {
        name: format!("random {i}"),
        head,
        unit,
        tail,
    }
}
