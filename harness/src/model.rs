//! Neutral model of a vCard that shares no code with the library: every
//! value is held as plain strings and numbers.  `dump` reads a `Vcard` into
//! the model through its public fields, `build` fills the public fields of
//! a `Vcard` from the model.

use vcard4::{parameter::*, property::*, Uri, Vcard};

#[derive(Clone, Debug, PartialEq)]
pub enum MType {
    Home,
    Work,
    Tel(&'static str),
    Rel(&'static str),
    Ext(String),
}

pub const TELS: [&str; 7] = [
    "text",
    "voice",
    "fax",
    "cell",
    "video",
    "pager",
    "textphone",
];
pub const RELS: [&str; 20] = [
    "contact",
    "acquaintance",
    "friend",
    "met",
    "co-worker",
    "colleague",
    "co-resident",
    "neighbor",
    "child",
    "parent",
    "sibling",
    "spouse",
    "kin",
    "muse",
    "crush",
    "date",
    "sweetheart",
    "me",
    "agent",
    "emergency",
];
pub const VALUES: [&str; 12] = [
    "text",
    "uri",
    "date",
    "time",
    "date-time",
    "date-and-or-time",
    "timestamp",
    "boolean",
    "integer",
    "float",
    "utc-offset",
    "language-tag",
];
pub const KINDS: [&str; 4] = ["individual", "group", "org", "location"];
pub const SEXES: [&str; 6] = ["", "M", "F", "O", "N", "U"];

#[derive(Clone, Debug, PartialEq)]
pub enum MTz {
    Text(String),
    Uri(String),
    Off(i32),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MParams {
    pub language: Option<String>,
    pub value: Option<&'static str>,
    pub pref: Option<u8>,
    pub alt_id: Option<String>,
    pub pid: Option<Vec<(u64, Option<u64>)>>,
    pub types: Option<Vec<MType>>,
    pub media_type: Option<String>,
    pub calscale: Option<String>,
    pub sort_as: Option<Vec<String>>,
    pub geo: Option<String>,
    pub tz: Option<MTz>,
    pub label: Option<String>,
    pub ext: Option<Vec<(String, Vec<String>)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct MDate {
    pub y: i32,
    pub m: u8,
    pub d: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct MTime {
    pub h: u8,
    pub m: u8,
    pub s: u8,
    pub ns: u32,
    /// Offset from UTC in seconds.
    pub off: i32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum MDt {
    D(MDate),
    DT(MDate, MTime),
    T(MTime),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MVal {
    Text(String),
    /// Delimited list: N, ORG (semi-colon), CATEGORIES (comma).
    List(Vec<String>),
    Uri(String),
    Adr([Option<String>; 7]),
    Kind(&'static str),
    Gender(&'static str, Option<String>),
    Lang(String),
    /// date-and-or-time list
    Dt(Vec<MDt>),
    /// REV
    Rev(MDate, MTime),
    Off(i32),
    PidMap(u64, String),
    Int(Vec<i64>),
    /// bit patterns
    Float(Vec<u64>),
    Bool(bool),
    Date(Vec<MDate>),
    DateTime(Vec<(MDate, MTime)>),
    Time(Vec<MTime>),
    Timestamp(Vec<(MDate, MTime)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MProp {
    /// Upper case name; the exact name for an extension.
    pub name: String,
    pub group: Option<String>,
    pub params: Option<MParams>,
    pub val: MVal,
}

pub type MCard = Vec<MProp>;

/// Order in which the fields of a card are compared (and documented to be
/// held): position of the field in the card.
pub const FIELDS: [&str; 35] = [
    "SOURCE",
    "KIND",
    "XML",
    "FN",
    "N",
    "NICKNAME",
    "PHOTO",
    "BDAY",
    "ANNIVERSARY",
    "GENDER",
    "URL",
    "ADR",
    "TITLE",
    "ROLE",
    "LOGO",
    "ORG",
    "MEMBER",
    "RELATED",
    "TEL",
    "EMAIL",
    "IMPP",
    "LANG",
    "TZ",
    "GEO",
    "CATEGORIES",
    "NOTE",
    "PRODID",
    "REV",
    "SOUND",
    "UID",
    "CLIENTPIDMAP",
    "KEY",
    "FBURL",
    "CALADRURI",
    "CALURI",
];

pub fn field_index(name: &str) -> usize {
    FIELDS
        .iter()
        .position(|f| *f == name)
        .unwrap_or(FIELDS.len())
}

/// Stable sort of the lines of a card by field.
pub fn sorted(mut card: MCard) -> MCard {
    card.sort_by_key(|p| field_index(&p.name));
    card
}

// ---------------------------------------------------------------- dump

fn stat(list: &[&'static str], i: usize) -> &'static str {
    list[i]
}

pub fn d_value(v: &ValueType) -> &'static str {
    stat(
        &VALUES,
        match v {
            ValueType::Text => 0,
            ValueType::Uri => 1,
            ValueType::Date => 2,
            ValueType::Time => 3,
            ValueType::DateTime => 4,
            ValueType::DateAndOrTime => 5,
            ValueType::Timestamp => 6,
            ValueType::Boolean => 7,
            ValueType::Integer => 8,
            ValueType::Float => 9,
            ValueType::UtcOffset => 10,
            ValueType::LanguageTag => 11,
        },
    )
}

pub fn b_value(v: &str) -> ValueType {
    match v {
        "text" => ValueType::Text,
        "uri" => ValueType::Uri,
        "date" => ValueType::Date,
        "time" => ValueType::Time,
        "date-time" => ValueType::DateTime,
        "date-and-or-time" => ValueType::DateAndOrTime,
        "timestamp" => ValueType::Timestamp,
        "boolean" => ValueType::Boolean,
        "integer" => ValueType::Integer,
        "float" => ValueType::Float,
        "utc-offset" => ValueType::UtcOffset,
        "language-tag" => ValueType::LanguageTag,
        _ => unreachable!(),
    }
}

pub fn d_tel(t: &TelephoneType) -> &'static str {
    stat(
        &TELS,
        match t {
            TelephoneType::Text => 0,
            TelephoneType::Voice => 1,
            TelephoneType::Fax => 2,
            TelephoneType::Cell => 3,
            TelephoneType::Video => 4,
            TelephoneType::Pager => 5,
            TelephoneType::TextPhone => 6,
        },
    )
}

pub fn b_tel(t: &str) -> TelephoneType {
    match t {
        "text" => TelephoneType::Text,
        "voice" => TelephoneType::Voice,
        "fax" => TelephoneType::Fax,
        "cell" => TelephoneType::Cell,
        "video" => TelephoneType::Video,
        "pager" => TelephoneType::Pager,
        "textphone" => TelephoneType::TextPhone,
        _ => unreachable!(),
    }
}

pub fn d_rel(t: &RelatedType) -> &'static str {
    stat(
        &RELS,
        match t {
            RelatedType::Contact => 0,
            RelatedType::Acquaintance => 1,
            RelatedType::Friend => 2,
            RelatedType::Met => 3,
            RelatedType::CoWorker => 4,
            RelatedType::Colleague => 5,
            RelatedType::CoResident => 6,
            RelatedType::Neighbor => 7,
            RelatedType::Child => 8,
            RelatedType::Parent => 9,
            RelatedType::Sibling => 10,
            RelatedType::Spouse => 11,
            RelatedType::Kin => 12,
            RelatedType::Muse => 13,
            RelatedType::Crush => 14,
            RelatedType::Date => 15,
            RelatedType::Sweetheart => 16,
            RelatedType::Me => 17,
            RelatedType::Agent => 18,
            RelatedType::Emergency => 19,
        },
    )
}

pub fn b_rel(t: &str) -> RelatedType {
    use RelatedType::*;
    match t {
        "contact" => Contact,
        "acquaintance" => Acquaintance,
        "friend" => Friend,
        "met" => Met,
        "co-worker" => CoWorker,
        "colleague" => Colleague,
        "co-resident" => CoResident,
        "neighbor" => Neighbor,
        "child" => Child,
        "parent" => Parent,
        "sibling" => Sibling,
        "spouse" => Spouse,
        "kin" => Kin,
        "muse" => Muse,
        "crush" => Crush,
        "date" => Date,
        "sweetheart" => Sweetheart,
        "me" => Me,
        "agent" => Agent,
        "emergency" => Emergency,
        _ => unreachable!(),
    }
}

pub fn d_kind(k: &Kind) -> &'static str {
    stat(
        &KINDS,
        match k {
            Kind::Individual => 0,
            Kind::Group => 1,
            Kind::Org => 2,
            Kind::Location => 3,
        },
    )
}

pub fn b_kind(k: &str) -> Kind {
    match k {
        "individual" => Kind::Individual,
        "group" => Kind::Group,
        "org" => Kind::Org,
        "location" => Kind::Location,
        _ => unreachable!(),
    }
}

pub fn d_sex(s: &Sex) -> &'static str {
    stat(
        &SEXES,
        match s {
            Sex::None => 0,
            Sex::Male => 1,
            Sex::Female => 2,
            Sex::Other => 3,
            Sex::NotApplicable => 4,
            Sex::Unknown => 5,
        },
    )
}

pub fn b_sex(s: &str) -> Sex {
    match s {
        "" => Sex::None,
        "M" => Sex::Male,
        "F" => Sex::Female,
        "O" => Sex::Other,
        "N" => Sex::NotApplicable,
        "U" => Sex::Unknown,
        _ => unreachable!(),
    }
}

pub fn d_type(t: &TypeParameter) -> MType {
    match t {
        TypeParameter::Home => MType::Home,
        TypeParameter::Work => MType::Work,
        TypeParameter::Telephone(t) => MType::Tel(d_tel(t)),
        TypeParameter::Related(t) => MType::Rel(d_rel(t)),
        TypeParameter::Extension(s) => MType::Ext(s.clone()),
    }
}

pub fn b_type(t: &MType) -> TypeParameter {
    match t {
        MType::Home => TypeParameter::Home,
        MType::Work => TypeParameter::Work,
        MType::Tel(t) => TypeParameter::Telephone(b_tel(t)),
        MType::Rel(t) => TypeParameter::Related(b_rel(t)),
        MType::Ext(s) => TypeParameter::Extension(s.clone()),
    }
}

pub fn d_params(p: &Parameters) -> MParams {
    MParams {
        language: p.language.as_ref().map(|l| l.to_string()),
        value: p.value.as_ref().map(d_value),
        pref: p.pref,
        alt_id: p.alt_id.clone(),
        pid: p
            .pid
            .as_ref()
            .map(|l| l.iter().map(|p| (p.local, p.source)).collect()),
        types: p.types.as_ref().map(|l| l.iter().map(d_type).collect()),
        media_type: p.media_type.as_ref().map(|l| l.to_string()),
        calscale: p.calscale.clone(),
        sort_as: p.sort_as.clone(),
        geo: p.geo.as_ref().map(|u| u.to_string()),
        tz: p.timezone.as_ref().map(|t| match t {
            TimeZoneParameter::Text(s) => MTz::Text(s.clone()),
            TimeZoneParameter::Uri(u) => MTz::Uri(u.to_string()),
            TimeZoneParameter::UtcOffset(o) => MTz::Off(o.whole_seconds()),
        }),
        label: p.label.clone(),
        ext: p.extensions.clone(),
    }
}

pub fn d_date(d: &vcard4::time::Date) -> MDate {
    MDate {
        y: d.year(),
        m: d.month() as u8,
        d: d.day(),
    }
}

pub fn d_time(t: &vcard4::time::Time, o: &vcard4::time::UtcOffset) -> MTime {
    MTime {
        h: t.hour(),
        m: t.minute(),
        s: t.second(),
        ns: t.nanosecond(),
        off: o.whole_seconds(),
    }
}

pub fn d_datetime(d: &vcard4::DateTime) -> (MDate, MTime) {
    let d = d.as_ref();
    (d_date(&d.date()), d_time(&d.time(), &d.offset()))
}

pub fn d_dt(d: &DateAndOrTime) -> MDt {
    match d {
        DateAndOrTime::Date(d) => MDt::D(d_date(d.as_ref())),
        DateAndOrTime::DateTime(d) => {
            let (d, t) = d_datetime(d);
            MDt::DT(d, t)
        }
        DateAndOrTime::Time((t, o)) => MDt::T(d_time(t, o)),
    }
}

fn prop(name: &str, group: &Option<String>, params: &Option<Parameters>, val: MVal) -> MProp {
    MProp {
        name: name.to_string(),
        group: group.clone(),
        // an empty parameter set is the same as none
        params: params
            .as_ref()
            .map(d_params)
            .filter(|p| *p != MParams::default()),
        val,
    }
}

pub fn d_text(name: &str, p: &TextProperty) -> MProp {
    prop(name, &p.group, &p.parameters, MVal::Text(p.value.clone()))
}
pub fn d_uri(name: &str, p: &UriProperty) -> MProp {
    prop(
        name,
        &p.group,
        &p.parameters,
        MVal::Uri(p.value.to_string()),
    )
}
pub fn d_text_uri(name: &str, p: &TextOrUriProperty) -> MProp {
    match p {
        TextOrUriProperty::Text(p) => d_text(name, p),
        TextOrUriProperty::Uri(p) => d_uri(name, p),
    }
}
pub fn d_dt_text(name: &str, p: &DateTimeOrTextProperty) -> MProp {
    match p {
        DateTimeOrTextProperty::Text(p) => d_text(name, p),
        DateTimeOrTextProperty::DateTime(p) => prop(
            name,
            &p.group,
            &p.parameters,
            MVal::Dt(p.value.iter().map(d_dt).collect()),
        ),
    }
}
pub fn d_list(name: &str, p: &TextListProperty) -> MProp {
    prop(name, &p.group, &p.parameters, MVal::List(p.value.clone()))
}
pub fn d_adr(a: &DeliveryAddress) -> [Option<String>; 7] {
    [
        a.po_box.clone(),
        a.extended_address.clone(),
        a.street_address.clone(),
        a.locality.clone(),
        a.region.clone(),
        a.postal_code.clone(),
        a.country_name.clone(),
    ]
}
pub fn d_any(v: &AnyProperty) -> MVal {
    match v {
        AnyProperty::Text(s) => MVal::Text(s.clone()),
        AnyProperty::Integer(l) => MVal::Int(l.clone()),
        AnyProperty::Float(l) => MVal::Float(l.iter().map(|f| f.to_bits()).collect()),
        AnyProperty::Boolean(b) => MVal::Bool(*b),
        AnyProperty::Date(l) => MVal::Date(l.iter().map(|d| d_date(d.as_ref())).collect()),
        AnyProperty::DateTime(l) => MVal::DateTime(l.iter().map(d_datetime).collect()),
        AnyProperty::Time(l) => MVal::Time(l.iter().map(|(t, o)| d_time(t, o)).collect()),
        AnyProperty::DateAndOrTime(l) => MVal::Dt(l.iter().map(d_dt).collect()),
        AnyProperty::Timestamp(l) => MVal::Timestamp(l.iter().map(d_datetime).collect()),
        AnyProperty::Uri(u) => MVal::Uri(u.to_string()),
        AnyProperty::UtcOffset(o) => MVal::Off(o.whole_seconds()),
        AnyProperty::Language(l) => MVal::Lang(l.to_string()),
    }
}

pub fn dump(c: &Vcard) -> MCard {
    let mut out = Vec::new();
    macro_rules! each {
        ($field:ident, $name:expr, $f:ident) => {
            for p in &c.$field {
                out.push($f($name, p));
            }
        };
    }
    each!(source, "SOURCE", d_uri);
    if let Some(p) = &c.kind {
        out.push(prop(
            "KIND",
            &p.group,
            &p.parameters,
            MVal::Kind(d_kind(&p.value)),
        ));
    }
    each!(xml, "XML", d_text);
    each!(formatted_name, "FN", d_text);
    each!(name, "N", d_list);
    each!(nickname, "NICKNAME", d_text);
    each!(photo, "PHOTO", d_text_uri);
    each!(bday, "BDAY", d_dt_text);
    each!(anniversary, "ANNIVERSARY", d_dt_text);
    if let Some(p) = &c.gender {
        out.push(prop(
            "GENDER",
            &p.group,
            &p.parameters,
            MVal::Gender(d_sex(&p.value.sex), p.value.identity.clone()),
        ));
    }
    each!(url, "URL", d_uri);
    for p in &c.address {
        out.push(prop(
            "ADR",
            &p.group,
            &p.parameters,
            MVal::Adr(d_adr(&p.value)),
        ));
    }
    each!(title, "TITLE", d_text);
    each!(role, "ROLE", d_text);
    each!(logo, "LOGO", d_uri);
    each!(org, "ORG", d_list);
    each!(member, "MEMBER", d_uri);
    each!(related, "RELATED", d_text_uri);
    each!(tel, "TEL", d_text_uri);
    each!(email, "EMAIL", d_text);
    each!(impp, "IMPP", d_uri);
    for p in &c.lang {
        out.push(prop(
            "LANG",
            &p.group,
            &p.parameters,
            MVal::Lang(p.value.to_string()),
        ));
    }
    for p in &c.timezone {
        out.push(match p {
            TimeZoneProperty::Text(p) => d_text("TZ", p),
            TimeZoneProperty::Uri(p) => d_uri("TZ", p),
            TimeZoneProperty::UtcOffset(p) => prop(
                "TZ",
                &p.group,
                &p.parameters,
                MVal::Off(p.value.whole_seconds()),
            ),
        });
    }
    each!(geo, "GEO", d_uri);
    each!(categories, "CATEGORIES", d_list);
    each!(note, "NOTE", d_text);
    each!(prod_id, "PRODID", d_text);
    if let Some(p) = &c.rev {
        let (d, t) = d_datetime(&p.value);
        out.push(prop("REV", &p.group, &p.parameters, MVal::Rev(d, t)));
    }
    each!(sound, "SOUND", d_uri);
    each!(uid, "UID", d_text_uri);
    for p in &c.client_pid_map {
        out.push(prop(
            "CLIENTPIDMAP",
            &p.group,
            &p.parameters,
            MVal::PidMap(p.value.source, p.value.uri.to_string()),
        ));
    }
    each!(key, "KEY", d_text_uri);
    each!(fburl, "FBURL", d_uri);
    each!(cal_adr_uri, "CALADRURI", d_uri);
    each!(cal_uri, "CALURI", d_uri);
    for p in &c.extensions {
        out.push(prop(&p.name, &p.group, &p.parameters, d_any(&p.value)));
    }
    out
}

// --------------------------------------------------------------- build

type B<T> = Result<T, String>;

pub fn b_uri(s: &str) -> B<Uri> {
    s.parse::<Uri>()
        .map_err(|e| format!("valid URI {s:?} is rejected: {e}"))
}

#[cfg(feature = "language-tags")]
pub fn b_lang(s: &str) -> B<language_tags::LanguageTag> {
    s.parse().map_err(|e| format!("language tag {s:?}: {e}"))
}
#[cfg(not(feature = "language-tags"))]
pub fn b_lang(s: &str) -> B<String> {
    Ok(s.to_string())
}
#[cfg(feature = "mime")]
pub fn b_mime(s: &str) -> B<mime::Mime> {
    s.parse().map_err(|e| format!("media type {s:?}: {e}"))
}
#[cfg(not(feature = "mime"))]
pub fn b_mime(s: &str) -> B<String> {
    Ok(s.to_string())
}

pub fn b_off(secs: i32) -> vcard4::time::UtcOffset {
    vcard4::time::UtcOffset::from_whole_seconds(secs).expect("model offset")
}
pub fn b_date(d: &MDate) -> vcard4::time::Date {
    let m = vcard4::time::Month::try_from(d.m).expect("model month");
    vcard4::time::Date::from_calendar_date(d.y, m, d.d).expect("model date")
}
pub fn b_time(t: &MTime) -> (vcard4::time::Time, vcard4::time::UtcOffset) {
    (
        vcard4::time::Time::from_hms_nano(t.h, t.m, t.s, t.ns).expect("model time"),
        b_off(t.off),
    )
}
pub fn b_datetime(d: &MDate, t: &MTime) -> vcard4::DateTime {
    let (time, off) = b_time(t);
    vcard4::time::PrimitiveDateTime::new(b_date(d), time)
        .assume_offset(off)
        .into()
}
pub fn b_dt(d: &MDt) -> DateAndOrTime {
    match d {
        MDt::D(d) => DateAndOrTime::Date(b_date(d).into()),
        MDt::DT(d, t) => DateAndOrTime::DateTime(b_datetime(d, t)),
        MDt::T(t) => DateAndOrTime::Time(b_time(t)),
    }
}

pub fn b_params(p: &MParams) -> B<Parameters> {
    let mut o = Parameters::default();
    o.language = p.language.as_deref().map(b_lang).transpose()?;
    o.value = p.value.map(b_value);
    o.pref = p.pref;
    o.alt_id = p.alt_id.clone();
    o.pid = p
        .pid
        .as_ref()
        .map(|l| l.iter().map(|(a, b)| Pid::new(*a, *b)).collect());
    o.types = p.types.as_ref().map(|l| l.iter().map(b_type).collect());
    o.media_type = p.media_type.as_deref().map(b_mime).transpose()?;
    o.calscale = p.calscale.clone();
    o.sort_as = p.sort_as.clone();
    o.geo = p.geo.as_deref().map(b_uri).transpose()?;
    o.timezone = match &p.tz {
        None => None,
        Some(MTz::Text(s)) => Some(TimeZoneParameter::Text(s.clone())),
        Some(MTz::Uri(s)) => Some(TimeZoneParameter::Uri(b_uri(s)?)),
        Some(MTz::Off(o)) => Some(TimeZoneParameter::UtcOffset(b_off(*o))),
    };
    o.label = p.label.clone();
    o.extensions = p.ext.clone();
    Ok(o)
}

pub fn b_adr(a: &[Option<String>; 7]) -> DeliveryAddress {
    let mut o = DeliveryAddress::default();
    o.po_box = a[0].clone();
    o.extended_address = a[1].clone();
    o.street_address = a[2].clone();
    o.locality = a[3].clone();
    o.region = a[4].clone();
    o.postal_code = a[5].clone();
    o.country_name = a[6].clone();
    o
}

pub fn b_any(v: &MVal) -> B<AnyProperty> {
    Ok(match v {
        MVal::Text(s) => AnyProperty::Text(s.clone()),
        MVal::Int(l) => AnyProperty::Integer(l.clone()),
        MVal::Float(l) => AnyProperty::Float(l.iter().map(|b| f64::from_bits(*b)).collect()),
        MVal::Bool(b) => AnyProperty::Boolean(*b),
        MVal::Date(l) => AnyProperty::Date(l.iter().map(|d| b_date(d).into()).collect()),
        MVal::DateTime(l) => {
            AnyProperty::DateTime(l.iter().map(|(d, t)| b_datetime(d, t)).collect())
        }
        MVal::Time(l) => AnyProperty::Time(l.iter().map(b_time).collect()),
        MVal::Dt(l) => AnyProperty::DateAndOrTime(l.iter().map(b_dt).collect()),
        MVal::Timestamp(l) => {
            AnyProperty::Timestamp(l.iter().map(|(d, t)| b_datetime(d, t)).collect())
        }
        MVal::Uri(u) => AnyProperty::Uri(b_uri(u)?),
        MVal::Off(o) => AnyProperty::UtcOffset(b_off(*o)),
        MVal::Lang(l) => AnyProperty::Language(b_lang(l)?),
        _ => unreachable!("not an extension value"),
    })
}

pub fn build(m: &MCard) -> B<Vcard> {
    let mut c = Vcard::default();
    for p in m {
        let group = p.group.clone();
        let parameters = p.params.as_ref().map(b_params).transpose()?;
        macro_rules! text {
            () => {
                match &p.val {
                    MVal::Text(s) => TextProperty {
                        value: s.clone(),
                        group,
                        parameters,
                    },
                    _ => unreachable!("{p:?}"),
                }
            };
        }
        macro_rules! uri {
            () => {
                match &p.val {
                    MVal::Uri(s) => UriProperty {
                        value: b_uri(s)?,
                        group,
                        parameters,
                    },
                    _ => unreachable!("{p:?}"),
                }
            };
        }
        macro_rules! text_uri {
            () => {
                match &p.val {
                    MVal::Text(_) => TextOrUriProperty::Text(text!()),
                    MVal::Uri(_) => TextOrUriProperty::Uri(uri!()),
                    _ => unreachable!("{p:?}"),
                }
            };
        }
        macro_rules! list {
            ($d:ident) => {
                match &p.val {
                    MVal::List(l) => TextListProperty {
                        value: l.clone(),
                        group,
                        parameters,
                        delimiter: TextListDelimiter::$d,
                    },
                    _ => unreachable!("{p:?}"),
                }
            };
        }
        macro_rules! dt_text {
            () => {
                match &p.val {
                    MVal::Text(_) => DateTimeOrTextProperty::Text(text!()),
                    MVal::Dt(l) => DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty {
                        value: l.iter().map(b_dt).collect(),
                        group,
                        parameters,
                    }),
                    _ => unreachable!("{p:?}"),
                }
            };
        }
        match &p.name[..] {
            "SOURCE" => c.source.push(uri!()),
            "KIND" => {
                if let MVal::Kind(k) = &p.val {
                    c.kind = Some(KindProperty {
                        value: b_kind(k),
                        group,
                        parameters,
                    })
                }
            }
            "XML" => c.xml.push(text!()),
            "FN" => c.formatted_name.push(text!()),
            "N" => c.name = Some(list!(SemiColon)),
            "NICKNAME" => c.nickname.push(text!()),
            "PHOTO" => c.photo.push(text_uri!()),
            "BDAY" => c.bday = Some(dt_text!()),
            "ANNIVERSARY" => c.anniversary = Some(dt_text!()),
            "GENDER" => {
                if let MVal::Gender(s, i) = &p.val {
                    c.gender = Some(GenderProperty {
                        value: Gender {
                            sex: b_sex(s),
                            identity: i.clone(),
                        },
                        group,
                        parameters,
                    })
                }
            }
            "URL" => c.url.push(uri!()),
            "ADR" => {
                if let MVal::Adr(a) = &p.val {
                    c.address.push(AddressProperty {
                        value: b_adr(a),
                        group,
                        parameters,
                    })
                }
            }
            "TITLE" => c.title.push(text!()),
            "ROLE" => c.role.push(text!()),
            "LOGO" => c.logo.push(uri!()),
            "ORG" => c.org.push(list!(SemiColon)),
            "MEMBER" => c.member.push(uri!()),
            "RELATED" => c.related.push(text_uri!()),
            "TEL" => c.tel.push(text_uri!()),
            "EMAIL" => c.email.push(text!()),
            "IMPP" => c.impp.push(uri!()),
            "LANG" => {
                if let MVal::Lang(l) = &p.val {
                    c.lang.push(LanguageProperty {
                        value: b_lang(l)?,
                        group,
                        parameters,
                    })
                }
            }
            "TZ" => c.timezone.push(match &p.val {
                MVal::Text(_) => TimeZoneProperty::Text(text!()),
                MVal::Uri(_) => TimeZoneProperty::Uri(uri!()),
                MVal::Off(o) => TimeZoneProperty::UtcOffset(UtcOffsetProperty {
                    value: b_off(*o),
                    group,
                    parameters,
                }),
                _ => unreachable!("{p:?}"),
            }),
            "GEO" => c.geo.push(uri!()),
            "CATEGORIES" => c.categories.push(list!(Comma)),
            "NOTE" => c.note.push(text!()),
            "PRODID" => c.prod_id = Some(text!()),
            "REV" => {
                if let MVal::Rev(d, t) = &p.val {
                    c.rev = Some(DateTimeProperty {
                        value: b_datetime(d, t),
                        group,
                        parameters,
                    })
                }
            }
            "SOUND" => c.sound.push(uri!()),
            "UID" => c.uid = Some(text_uri!()),
            "CLIENTPIDMAP" => {
                if let MVal::PidMap(n, u) = &p.val {
                    c.client_pid_map.push(ClientPidMapProperty {
                        value: ClientPidMap {
                            source: *n,
                            uri: b_uri(u)?,
                        },
                        group,
                        parameters,
                    })
                }
            }
            "KEY" => c.key.push(text_uri!()),
            "FBURL" => c.fburl.push(uri!()),
            "CALADRURI" => c.cal_adr_uri.push(uri!()),
            "CALURI" => c.cal_uri.push(uri!()),
            _ => c.extensions.push(ExtensionProperty {
                name: p.name.clone(),
                value: b_any(&p.val)?,
                group,
                parameters,
            }),
        }
    }
    Ok(c)
}

/// First difference between two lists of cards.
pub fn diff(expected: &[MCard], observed: &[MCard]) -> Option<String> {
    for (i, (e, o)) in expected.iter().zip(observed.iter()).enumerate() {
        for (j, (pe, po)) in e.iter().zip(o.iter()).enumerate() {
            if pe != po {
                return Some(format!(
                    "card {i} property {j}:\n  expected {pe:?}\n  observed {po:?}"
                ));
            }
        }
        if e.len() != o.len() {
            let (l, s, w) = if e.len() > o.len() {
                (e, o, "missing")
            } else {
                (o, e, "extra")
            };
            return Some(format!(
                "card {i}: expected {} properties, observed {}; {w}: {:?}",
                e.len(),
                o.len(),
                &l[s.len()]
            ));
        }
    }
    if expected.len() != observed.len() {
        return Some(format!(
            "expected {} cards, observed {}",
            expected.len(),
            observed.len()
        ));
    }
    None
}
