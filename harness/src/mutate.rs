//! Inputs that are not under the control of the reference writer:
//! realistic documents of other software, random mutations and token soup.

use crate::rng::Rng;
use crate::{gen, wire};

pub const SAMPLES: [&str; 9] = [
    // RFC 6350, section 8
    "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Simon Perreault\r\nN:Perreault;Simon;;;ing. jr,M.Sc.\r\nBDAY:--0203\r\nGENDER:M\r\nLANG;PREF=1:fr\r\nLANG;PREF=2:en\r\nORG;TYPE=work:Viagenie\r\nADR;TYPE=work:;Suite D2-630;2875 Laurier;\r\n Quebec;QC;G1V 2M2;Canada\r\nTEL;VALUE=uri;TYPE=\"work,voice\";PREF=1:tel:+1-418-656-9254;ext=102\r\nTEL;VALUE=uri;TYPE=\"work,cell,voice,video,text\":tel:+1-418-262-6501\r\nEMAIL;TYPE=work:simon.perreault@viagenie.ca\r\nGEO;TYPE=work:geo:46.772673,-71.282945\r\nKEY;TYPE=work;VALUE=uri:\r\n http://www.viagenie.ca/simon.perreault/simon.asc\r\nTZ:-0500\r\nURL;TYPE=home:http://nomis80.org\r\nEND:VCARD\r\n",
    // Apple Contacts
    "BEGIN:VCARD\nVERSION:3.0\nPRODID:-//Apple Inc.//Mac OS X 10.15.7//EN\nN:Doe;Jane;;;\nFN:Jane Doe\nORG:Example\\, Inc.;\nEMAIL;type=INTERNET;type=HOME;type=pref:jane@example.com\nTEL;type=CELL;type=VOICE;type=pref:(555) 123-4567\nitem1.ADR;type=HOME;type=pref:;;1 Main St\\nApt 2;Town;CA;94000;United States\nitem1.X-ABADR:us\nitem2.URL;type=pref:http\\://example.com\nitem2.X-ABLabel:_$!<HomePage>!$_\nNOTE:A note\\nwith lines\\, and more\\; text\nBDAY:1985-07-12\nPHOTO;ENCODING=b;TYPE=JPEG:/9j/4AAQSkZJRgABAQAAAQABAAD/2wBDAAgGBgcGBQgHBwcJ\n CQgKDBQNDAsLDBkSEw8UHRofHh0aHBwgJC4nICIsIxwcKDcpLDAxNDQ0Hyc5PTgyPC4zNDL/2w==\nX-SOCIALPROFILE;type=twitter:http://twitter.com/jane\nUID:1b2c3d4e\nREV:20210102T030405Z\nEND:VCARD\n",
    // Google
    "BEGIN:VCARD\r\nVERSION:3.0\r\nFN;CHARSET=UTF-8:J\u{fc}rgen M\u{fc}ller\r\nN;CHARSET=UTF-8:M\u{fc}ller;J\u{fc}rgen;;Dr.;\r\nitem1.EMAIL;TYPE=INTERNET:j@example.de\r\nitem1.X-ABLabel:\r\nTEL;TYPE=WORK:+49 30 1234567\r\nADR;TYPE=HOME:;;Stra\u{df}e 1;Berlin;;10115;Deutschland;Stra\u{df}e 1\r\nCATEGORIES:myContacts,starred\r\nX-PHONETIC-FIRST-NAME:yurgen\r\nPHOTO:https://lh3.googleusercontent.com/contacts/AAA\r\nEND:VCARD\r\nBEGIN:VCARD\r\nVERSION:3.0\r\nFN:Second\r\nN:;Second;;;\r\nEND:VCARD\r\n",
    // Outlook
    "BEGIN:VCARD\r\nVERSION:3.0\r\nREV:20100102T030405Z\r\nN;LANGUAGE=en-us:Public;John;Quinlan;Mr.;Esq.\r\nFN:Mr. John Q. Public, Esq.\r\nORG:Some Company;Dept\r\nTITLE:Shrimp Man\r\nTEL;WORK;VOICE:(111) 555-1212\r\nLABEL;TYPE=WORK:100 Waters Edge\\nBaytown\\, LA 30314\r\nADR;WORK;PREF:;;100 Waters Edge;Baytown;LA;30314;United States of America\r\nEMAIL;PREF;INTERNET:forrestgump@example.com\r\nX-MS-OL-DEFAULT-POSTAL-ADDRESS:2\r\nEND:VCARD\r\n",
    // everything
    "BEGIN:VCARD\r\nVERSION:4.0\r\nSOURCE:http://directory.example.com/addressbooks/jdoe.vcf\r\nKIND:group\r\nXML:<a xmlns=\"http://example.com\">b</a>\r\nFN;ALTID=1;LANGUAGE=fr:Jean\r\nFN;ALTID=1;LANGUAGE=en:John\r\nNICKNAME;TYPE=work:Boss\r\nPHOTO:data:image/jpeg;base64,MIICajCCAdOgAwIBAgICBEUwDQYJKoZIhvcN\r\nBDAY;CALSCALE=gregorian:19531015T231000Z\r\nANNIVERSARY;VALUE=text:circa 1800\r\nGENDER:O;intersex\r\nADR;GEO=\"geo:12.3457,78.910\";LABEL=\"Mr. John\\nMail Drop: X\":;;123 Main Street;Any Town;CA;91921-1234;U.S.A.\r\nIMPP;PREF=1:xmpp:alice@example.com\r\nLANG;TYPE=work;PREF=1:en\r\nTZ;VALUE=utc-offset:-0500\r\nGEO:geo:37.386013,-122.082932\r\nROLE:Project Leader\r\nLOGO:http://www.example.com/pub/logos/abccorp.jpg\r\nMEMBER:urn:uuid:03a0e51f-d1aa-4385-8a53-e29025acd8af\r\nRELATED;TYPE=friend:urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6\r\nRELATED;TYPE=co-worker;VALUE=text:Please contact my assistant\r\nSOUND:CID:JOHNQPUBLIC.part8.19960229T080000.xyzMail@example.com\r\nUID:urn:uuid:4fbe8971-0bc3-424c-9c26-36c3e1eff6b1\r\nCLIENTPIDMAP:1;urn:uuid:3df403f4-5924-4bb7-b077-3c711d9eb34b\r\nEMAIL;PID=4.1,5.2:jdoe@example.com\r\nKEY;MEDIATYPE=application/pgp-keys:ftp://example.com/keys/jdoe\r\nFBURL;PREF=1:http://www.example.com/busy/janedoe\r\nCALADRURI:mailto:janedoe@example.com\r\nCALURI:http://cal.example.com/calA\r\nX-A;VALUE=integer:1,-2,3\r\nX-B;VALUE=float:1.5,-2e10\r\nX-C;VALUE=boolean:TRUE\r\nX-D;VALUE=date:19850412,1985-04,1985,--0412,---12\r\nX-E;VALUE=time:102200,1022,10,-2200,--00,102200Z,102200-0800\r\nX-F;VALUE=date-time:19961022T140000,--1022T1400,---22T14\r\nX-G;VALUE=date-and-or-time:19961022T140000,T102200,19850412\r\nX-H;VALUE=timestamp:19961022T140000,19961022T140000Z,19961022T140000-05\r\nX-I;VALUE=utc-offset:+0100\r\nX-J;VALUE=language-tag:de-1996\r\nX-K;VALUE=uri:http://example.com/,a\r\nREV:19951031T222710Z\r\nEND:VCARD\r\n",
    // minimal
    "BEGIN:VCARD\nVERSION:4.0\nFN:a\nEND:VCARD",
    // bad lines
    "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Bad\r\nBDAY:not a date\r\nTEL;PREF=0:1\r\n\r\nFOO:bar\r\nNOTE;LABEL=x:y\r\nURL:nothing\r\nEND:VCARD\r\n\r\nBEGIN:VCARD\r\nVERSION:4.0\r\nEND:VCARD\r\nBEGIN:VCARD\r\nVERSION:4.0\r\nFN:good\r\nEND:VCARD\r\n\r\n\r\n",
    "BEGIN:VCARD\r\nVERSION:2.1\r\nN:Old;Style\r\nTEL;HOME:1\r\nEND:VCARD\r\nBEGIN:VCARD\r\nVERSION:4.0\r\nFN:unterminated\r\nBEGIN:VCARD\r\nVERSION:4.0\r\nFN:next\r\nEND:VCARD\r\n",
    "",
];

/// Pieces that mean something to some part of the library.
pub const DICT: [&str; 112] = [
    "BEGIN:VCARD",
    "END:VCARD",
    "VERSION:4.0",
    "VERSION:3.0",
    "\r\n",
    "\n",
    "\r",
    "\r\n ",
    "\n\t",
    ":",
    ";",
    ",",
    "=",
    "\"",
    "\\",
    "\\n",
    "\\N",
    "\\,",
    "\\;",
    "\\\\",
    ".",
    "-",
    "--",
    "---",
    "+",
    "T",
    "Z",
    "TZ",
    "GEO",
    "X-",
    "x-a",
    "FN",
    "N:",
    "KIND:group",
    "GENDER:;",
    "ADR:;;;;;;",
    "BDAY:",
    "REV:",
    "UID:",
    "TEL",
    "PHOTO;ENCODING=b;TYPE=JPEG:",
    "CLIENTPIDMAP:1;",
    "MEMBER:",
    "LANG:",
    "NOTE:",
    "CATEGORIES:",
    ";VALUE=",
    "text",
    "uri",
    "date",
    "time",
    "date-time",
    "date-and-or-time",
    "timestamp",
    "boolean",
    "integer",
    "float",
    "utc-offset",
    "language-tag",
    ";TYPE=",
    ";PREF=",
    ";PID=",
    ";ALTID=",
    ";LABEL=",
    ";TZ=",
    ";GEO=\"geo:1,2\"",
    ";SORT-AS=",
    ";LANGUAGE=",
    ";MEDIATYPE=",
    ";CALSCALE=",
    ";CHARSET=UTF-8",
    ";ENCODING=b",
    ";X-A=",
    "0",
    "1",
    "9999",
    "19850412",
    "1985-04",
    "T102200Z",
    "-0500",
    "+00",
    "255",
    "18446744073709551615",
    "-9223372036854775808",
    "1e400",
    "NaN",
    "-inf",
    "true",
    "geo:1,2",
    "http://a/b",
    "://",
    "%",
    "%zz",
    "[::1]",
    "@",
    "#",
    "?",
    "\u{0}",
    "\u{7f}",
    "\u{85}",
    "\u{2028}",
    "\u{feff}",
    "é",
    "e\u{301}",
    "\u{1F600}",
    "ſ",
    "\u{212a}",
    "İ",
    "/9j/4AA=",
    "=====",
    " ",
    "\t",
];

fn boundary(s: &str, mut p: usize) -> usize {
    while !s.is_char_boundary(p) {
        p -= 1;
    }
    p
}

fn pos(r: &mut Rng, s: &str) -> usize {
    let p = if r.chance(1, 3) && !s.is_empty() {
        // just after a delimiter
        let d: Vec<usize> = s
            .bytes()
            .enumerate()
            .filter(|(_, b)| matches!(b, b':' | b';' | b',' | b'=' | b'\n' | b'"' | b'\\'))
            .map(|(i, _)| i + 1)
            .collect();
        if d.is_empty() {
            0
        } else {
            *r.of(&d)
        }
    } else {
        r.below(s.len() + 1)
    };
    boundary(s, p)
}

/// One random edit.
pub fn edit(r: &mut Rng, s: &mut String) {
    let p = pos(r, s);
    match r.below(14) {
        0 | 1 | 2 => s.insert_str(p, r.pick(&DICT)),
        3 => {
            // delete a few characters
            let mut q = (p + r.below(8)).min(s.len());
            q = boundary(s, q).max(p);
            s.replace_range(p..q, "");
        }
        4 => {
            // delete or replace one character
            if let Some(c) = s[p..].chars().next() {
                let q = p + c.len_utf8();
                let with = if r.bool() {
                    r.pick(&DICT).to_string()
                } else {
                    String::new()
                };
                s.replace_range(p..q, &with);
            }
        }
        5 => {
            // duplicate a range
            let q = boundary(s, (p + r.below(60)).min(s.len())).max(p);
            let part = s[p..q].to_string();
            let at = pos(r, s);
            s.insert_str(at, &part);
        }
        6 | 7 | 8 => {
            // lines: remove, repeat, swap, move
            let mut l: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
            if l.is_empty() {
                return;
            }
            let i = r.below(l.len());
            let j = r.below(l.len());
            match r.below(4) {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let x = l[i].clone();
                    l.insert(j, x);
                }
                2 => l.swap(i, j),
                _ => {
                    let x = l.remove(i);
                    l.insert(j.min(l.len()), x);
                }
            }
            *s = l.concat();
        }
        9 => s.truncate(p),
        10 => {
            // another letter case
            let q = boundary(s, (p + r.below(20)).min(s.len())).max(p);
            let x = wire::recase(r, &s[p..q]);
            s.replace_range(p..q, &x);
        }
        11 => {
            // join two lines
            if let Some(n) = s[p..].find('\n') {
                s.remove(p + n);
            }
        }
        12 => {
            // hostile text
            let t = gen::text(r);
            s.insert_str(p, &t);
        }
        _ => {
            // any character
            let c = loop {
                if let Some(c) = char::from_u32(match r.below(3) {
                    0 => r.below(0x80) as u32,
                    1 => r.below(0x3000) as u32,
                    _ => r.below(0x110000) as u32,
                }) {
                    break c;
                }
            };
            s.insert(p, c);
        }
    }
}

/// A document before mutation.
pub fn seed(r: &mut Rng) -> String {
    if r.chance(2, 5) {
        r.pick(&SAMPLES).to_string()
    } else if r.chance(1, 4) {
        crate::props::refer::remix(r)
    } else {
        let mut cards = gen::cards(r);
        cards.truncate(3);
        for c in &mut cards {
            // keep them short
            while c.len() > 10 {
                c.pop();
            }
        }
        let st = wire::Style::random(r);
        wire::document(r, &st, &cards)
    }
}

pub fn mutated(r: &mut Rng) -> String {
    let mut s = seed(r);
    let n = *r.of(&[1, 1, 1, 2, 2, 3, 5, 12]);
    for _ in 0..n {
        edit(r, &mut s);
    }
    s
}

/// Random tokens, usually inside an envelope.
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let wrap = r.chance(4, 5);
    if wrap {
        s.push_str("BEGIN:VCARD\nVERSION:4.0\nFN:x\n");
    }
    for _ in 0..r.range(1, 6) {
        if r.chance(2, 3) {
            if r.chance(1, 4) {
                s.push_str(&gen::group(r));
                s.push('.');
            }
            let i = r.below(crate::model::FIELDS.len() + 4);
            if i < crate::model::FIELDS.len() {
                s.push_str(crate::model::FIELDS[i]);
            } else {
                s.push_str(&gen::xname(r));
            }
            if r.bool() {
                s.push_str(r.pick(&[
                    ";VALUE=text",
                    ";VALUE=uri",
                    ";VALUE=date",
                    ";VALUE=time",
                    ";VALUE=date-time",
                    ";VALUE=date-and-or-time",
                    ";VALUE=timestamp",
                    ";VALUE=boolean",
                    ";VALUE=integer",
                    ";VALUE=float",
                    ";VALUE=utc-offset",
                    ";VALUE=language-tag",
                    ";VALUE=x",
                    ";TYPE=home",
                    ";PREF=1",
                    ";TZ=-0500",
                    ";SORT-AS=a",
                    ";PID=1",
                ]));
            }
            if r.chance(9, 10) {
                s.push(':');
            }
        }
        for _ in 0..r.below(8) {
            s.push_str(r.pick(&DICT));
        }
        if r.chance(1, 4) {
            s.push_str(&value(r));
        }
        s.push('\n');
    }
    if wrap {
        s.push_str("END:VCARD\n");
    }
    s
}

const VALUE_PIECES: [&str; 56] = [
    "0",
    "1",
    "2",
    "5",
    "9",
    "00",
    "12",
    "19",
    "23",
    "24",
    "29",
    "30",
    "31",
    "59",
    "60",
    "61",
    "99",
    "1985",
    "0000",
    "9999",
    "10000",
    "-",
    "--",
    "---",
    "+",
    "T",
    "Z",
    "z",
    "t",
    ":",
    ".",
    ",",
    ";",
    "W",
    "/",
    "e",
    "E",
    "x",
    "_",
    " ",
    "é",
    "\u{0661}",
    "\u{1F600}",
    "inf",
    "nan",
    "true",
    "FALSE",
    "M",
    "home",
    "X-",
    "group",
    "http:",
    "//",
    "%41",
    "=",
    "",
];

/// A short value that resembles a date, number, offset, URI or token.
pub fn value(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 => {
            let d = gen::date(r);
            let t = gen::time(r);
            s = match r.below(5) {
                0 => wire::w_date(&d),
                1 => wire::w_time(&t),
                2 => wire::w_datetime(&d, &t),
                3 => format!("T{}", wire::w_time_z(&t)),
                _ => wire::w_off(t.off),
            };
            for _ in 0..r.below(3) {
                edit(r, &mut s);
            }
        }
        1 => {
            s = gen::uri(r);
            for _ in 0..r.range(1, 3) {
                edit(r, &mut s);
            }
        }
        2 => s = gen::text(r),
        _ => {
            for _ in 0..r.range(0, 7) {
                s.push_str(r.pick(&VALUE_PIECES));
            }
        }
    }
    s
}
