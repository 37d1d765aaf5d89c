//! Reference recognizer for the `URI` rule of RFC 3986.

fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-._~".contains(&b)
}
fn sub_delim(b: u8) -> bool {
    b"!$&'()*+,;=".contains(&b)
}

/// Only the characters allowed and well-formed percent escapes.
fn chars(s: &[u8], extra: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        if b == b'%' {
            if i + 2 >= s.len() || !s[i + 1].is_ascii_hexdigit() || !s[i + 2].is_ascii_hexdigit() {
                return false;
            }
            i += 3;
        } else if unreserved(b) || sub_delim(b) || extra.contains(&b) {
            i += 1;
        } else {
            return false;
        }
    }
    true
}

fn host(h: &str) -> bool {
    if let Some(x) = h.strip_prefix('[') {
        let Some(x) = x.strip_suffix(']') else {
            return false;
        };
        if let Some(f) = x.strip_prefix(['v', 'V']) {
            let Some((v, a)) = f.split_once('.') else {
                return false;
            };
            return !v.is_empty()
                && v.bytes().all(|b| b.is_ascii_hexdigit())
                && !a.is_empty()
                && a.bytes()
                    .all(|b| unreserved(b) || sub_delim(b) || b == b':');
        }
        return x.parse::<std::net::Ipv6Addr>().is_ok();
    }
    chars(h.as_bytes(), b"")
}

fn authority(a: &str) -> bool {
    let rest = match a.split_once('@') {
        Some((user, rest)) => {
            if !chars(user.as_bytes(), b":") {
                return false;
            }
            rest
        }
        None => a,
    };
    let (h, port) = if rest.starts_with('[') {
        match rest.find(']') {
            Some(p) => rest.split_at(p + 1),
            None => return false,
        }
    } else {
        match rest.find(':') {
            Some(p) => rest.split_at(p),
            None => (rest, ""),
        }
    };
    host(h)
        && (port.is_empty()
            || port.starts_with(':') && port[1..].bytes().all(|b| b.is_ascii_digit()))
}

/// Is the whole text a URI?
pub fn valid(s: &str) -> bool {
    let Some((scheme, rest)) = s.split_once(':') else {
        return false;
    };
    if scheme.is_empty()
        || !scheme.as_bytes()[0].is_ascii_alphabetic()
        || !scheme
            .bytes()
            .all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b))
    {
        return false;
    }
    let (rest, fragment) = rest.split_once('#').unwrap_or((rest, ""));
    let (hier, query) = rest.split_once('?').unwrap_or((rest, ""));
    if !chars(fragment.as_bytes(), b":@/?") || !chars(query.as_bytes(), b":@/?") {
        return false;
    }
    match hier.strip_prefix("//") {
        Some(a) => {
            let (a, path) = a.split_at(a.find('/').unwrap_or(a.len()));
            authority(a) && chars(path.as_bytes(), b":@/")
        }
        None => chars(hier.as_bytes(), b":@/"),
    }
}

/// A port number a URI library may refuse.
pub fn huge_port(s: &str) -> bool {
    let digits = |t: &str| -> bool {
        let d = t.bytes().take_while(|b| b.is_ascii_digit()).count();
        t[..d]
            .trim_start_matches('0')
            .parse::<u64>()
            .map_or(d > 9, |n| n > 65535)
    };
    let Some((_, rest)) = s.split_once("://") else {
        return false;
    };
    let auth = &rest[..rest.find(['/', '?', '#']).unwrap_or(rest.len())];
    auth.match_indices(':').any(|(p, _)| digits(&auth[p + 1..]))
}

/// The text with which a valid URI is delivered: an empty path after an
/// authority is written `/`, ports are plain numbers and empty ones left
/// out, the scheme is in lower case.
pub fn canonical(s: &str) -> String {
    let (scheme, rest) = s.split_once(':').unwrap_or((s, ""));
    let scheme = scheme.to_ascii_lowercase();
    let Some(rest) = rest.strip_prefix("//") else {
        return format!("{scheme}:{rest}");
    };
    let end = rest.find(['/', '?', '#']).unwrap_or(rest.len());
    let (auth, tail) = rest.split_at(end);
    let host = auth.rfind(['@', ']']).map_or(0, |p| p + 1);
    let auth = match auth[host..].find(':') {
        None => auth.to_string(),
        Some(p) => {
            let (before, port) = auth.split_at(host + p);
            match port[1..].trim_start_matches('0') {
                "" if port.len() > 1 => format!("{before}:0"),
                "" => before.to_string(),
                n => format!("{before}:{n}"),
            }
        }
    };
    let slash = if tail.starts_with('/') { "" } else { "/" };
    format!("{scheme}://{auth}{slash}{tail}")
}

/// Lower case scheme.
pub fn fold_scheme(s: &str) -> String {
    match s.split_once(':') {
        Some((a, b)) => format!("{}:{b}", a.to_ascii_lowercase()),
        None => s.to_string(),
    }
}
