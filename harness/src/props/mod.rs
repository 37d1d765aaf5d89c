//! The monitors, one module per group of properties.

use crate::model::*;
use crate::runner::*;
use std::collections::BTreeMap;

pub mod dates;
pub mod drop;
pub mod faults;
pub mod features;
pub mod parse;
pub mod refer;
pub mod round;
#[cfg(feature = "serde")]
pub mod serde;
pub mod sizes;
pub mod state;
pub mod text;
pub mod total;
pub mod types;
pub mod values;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => total::c01(),
        "C02" => parse::c02(),
        "C03" => text::c03(),
        "C04" => text::c04(),
        "C05" => round::c05(),
        "C06" => round::c06(),
        "C07" => round::c07(),
        "C08" => parse::c08(),
        "C09" => parse::c09(),
        "C10" => faults::c10(),
        "C11" => faults::c11(),
        "C12" => faults::c12(),
        "C13" => faults::c13(),
        "C14" => dates::c14(),
        "C15" => dates::c15(),
        "C16" => types::c16(),
        "C17" => types::c17(),
        "C18" => drop::c18(),
        #[cfg(feature = "serde")]
        "C19" => serde::c19(),
        "C20" => types::c20(),
        "C21" => state::c21(),
        "C23" => types::c23(),
        "C24" => features::c24(),
        "C25" => values::c25(),
        "C26" => values::c26(),
        _ => return None,
    })
}

type After = fn(&str, &Config, &mut Report, &mut BTreeMap<String, String>);

/// Extra stage of a check after its generated workload.
pub fn after(id: &str) -> Option<After> {
    match id {
        "C24" => Some(features::after_c24),
        _ if std::env::var("VCMON_OTHER").is_ok() => Some(other_build),
        _ => None,
    }
}

/// The same check in the build with all features.
fn other_build(id: &str, cfg: &Config, rep: &mut Report, extra: &mut BTreeMap<String, String>) {
    let Ok(other) = std::env::var("VCMON_OTHER") else {
        return;
    };
    let ev = format!(
        "{}.all",
        cfg.state.clone().unwrap_or_else(|| "/tmp/vcmon-other".into())
    );
    let mut cmd = std::process::Command::new(&other);
    cmd.args(["check", id])
        .env_remove("VCMON_OTHER")
        .env_remove("VCMON_EXTRA")
        .env("VCMON_EVIDENCE", &ev);
    if let Ok(t) = std::env::var("VCMON_OTHER_TIME") {
        cmd.env("VCMON_TIME", t);
    }
    let out = cmd.output();
    let text = std::fs::read_to_string(&ev).unwrap_or_default();
    let _ = std::fs::remove_file(&ev);
    match out {
        Ok(o) => {
            let shown = String::from_utf8_lossy(&o.stdout).to_string();
            match o.status.code() {
                Some(0) => {
                    let n: u64 = text
                        .split("\"evaluations\":")
                        .nth(1)
                        .map(|s| s.trim_start())
                        .and_then(|s| s.split(|c: char| !c.is_ascii_digit()).next())
                        .and_then(|s| s.parse().ok())
                        .unwrap_or(0);
                    if n == 0 {
                        rep.harness.push("all features: nothing observed".into());
                    }
                    extra.insert(
                        "with_all_features".into(),
                        format!("\"{n} more evaluations in the build with all features\""),
                    );
                    rep.stats.evals += n;
                }
                Some(1) => rep.fails.push((
                    "all-features".into(),
                    0,
                    Fail {
                        what: "with all features".into(),
                        input: String::new(),
                        detail: shown,
                    },
                )),
                _ => rep.harness.push(format!("all features: {shown}")),
            }
        }
        Err(e) => rep.harness.push(format!("can't run {other}: {e}")),
    }
}

/// Other sub commands.
pub fn tool(args: &[&str]) -> Option<i32> {
    match args {
        ["transcripts"] => Some(state::transcripts()),
        _ => None,
    }
}

pub fn dump_all(cards: &[vcard4::Vcard]) -> Vec<MCard> {
    cards.iter().map(dump).collect()
}

/// Parse strictly and compare with the expected cards.
pub fn expect_parse(
    what: &str,
    input: &str,
    expected: &[MCard],
) -> Result<Vec<vcard4::Vcard>, Fail> {
    match vcard4::parse(input) {
        Ok(cards) => {
            let got = dump_all(&cards);
            match diff(expected, &got) {
                Some(d) => fail(what, input, d),
                None => Ok(cards),
            }
        }
        Err(e) => fail(
            format!("{what}: rejected"),
            input,
            format!("error {e:?} ({e})"),
        ),
    }
}

pub fn sorted_all(cards: &[MCard]) -> Vec<MCard> {
    cards.iter().cloned().map(sorted).collect()
}

/// Name of the variant of an error.
pub fn variant(e: &vcard4::Error) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric())
        .next()
        .unwrap_or("")
        .to_string()
}
