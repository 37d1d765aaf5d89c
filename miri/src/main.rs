//! Runs under the Miri interpreter, which watches every memory access:
//! reads texts separated by NUL from a file and does with each all that a
//! user can do.  With `threads`, cards and iterators are shared and moved.

use std::time::{Duration, Instant};
use vcard4::{helper, Vcard};

fn card(c: Vcard) {
    let t = c.to_string();
    let d = c.clone();
    let _ = c == d;
    let _ = c.validate();
    let _ = c.parse_photo_jpeg();
    drop(c);
    drop(d);
    let _ = vcard4::parse(&t);
}

fn document(s: &str) {
    for strict in [true, false] {
        for item in vcard4::iter(s, strict) {
            match item {
                Ok(c) => card(c),
                Err(e) => {
                    let _ = e.to_string();
                }
            }
        }
    }
    let _ = Vcard::try_from(s);
}

fn value(s: &str) {
    let _ = s.parse::<vcard4::Uri>().map(|u| u.to_string());
    let _ = helper::parse_date_list(s);
    let _ = helper::parse_time_list(s);
    let _ = helper::parse_date_time_list(s);
    let _ = helper::parse_timestamp_list(s);
    let _ = helper::parse_date_and_or_time_list(s);
    let _ = helper::parse_utc_offset(s);
    let _ = helper::parse_integer_list(s);
    let _ = helper::parse_float_list(s);
    let _ = helper::parse_boolean(s);
}

/// Returns what was seen in other threads, which must be the same.
fn threads(s: &str) -> bool {
    let alone = format!("{:?}", vcard4::parse(s));
    let cards = vcard4::parse_loose(s).unwrap_or_default();
    let text: String = cards.iter().map(|c| c.to_string()).collect();
    std::thread::scope(|sc| {
        let mut l = Vec::new();
        for _ in 0..2 {
            l.push(sc.spawn(|| format!("{:?}", vcard4::parse(s)) == alone));
            l.push(sc.spawn(|| {
                let c = cards.clone();
                c.iter().map(|c| c.to_string()).collect::<String>() == text && c == cards
            }));
        }
        let mut it = vcard4::iter(s, false);
        let _ = it.next();
        l.push(sc.spawn(move || {
            let _ = it.next();
            true
        }));
        l.into_iter().all(|h| h.join().unwrap())
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (file, mode) = (&args[1], &args[2][..]);
    let skip: usize = args[3].parse().unwrap();
    let step: usize = args[4].parse().unwrap();
    let secs: u64 = args[5].parse().unwrap();
    let all = std::fs::read_to_string(file).expect("inputs");
    let start = Instant::now();
    let mut n = 0;
    let mut bytes = 0;
    for s in all.split('\0').skip(skip).step_by(step) {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        // the last one named is the one that was running
        println!("INPUT {s:?}");
        match mode {
            "document" => document(s),
            "value" => value(s),
            _ => {
                if !threads(s) {
                    println!("DIFFERS {s:?}");
                    std::process::exit(1);
                }
            }
        }
        n += 1;
        bytes += s.len();
    }
    println!("RAN {n} {bytes}");
}
