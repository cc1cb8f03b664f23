//! Reference model of decomposition, resolution and normalization, written from
//! RFC 3986 (section 5.2, 5.2.4, 5.3, 6.2.2, Appendix B) and RFC 3987, without
//! reference to the crate's algorithms.

use std::fmt;

use crate::rfc;

/// The five components of RFC 3986 section 3.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Parts {
    pub scheme: Option<String>,
    pub authority: Option<String>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}

/// RFC 3986 section 3.2.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Auth {
    pub userinfo: Option<String>,
    pub host: String,
    pub port: Option<String>,
}

fn split_at<'a>(s: &'a str, set: &[char]) -> (&'a str, &'a str) {
    s.find(|c| set.contains(&c)).map_or((s, ""), |i| s.split_at(i))
}

impl Parts {
    /// Appendix B: `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`.
    pub fn parse(s: &str) -> Parts {
        let mut p = Parts::default();
        let mut rest = s;
        let (head, after) = split_at(rest, &[':', '/', '?', '#']);
        if !head.is_empty() && after.starts_with(':') {
            p.scheme = Some(head.to_string());
            rest = &after[1..];
        }
        if let Some(r) = rest.strip_prefix("//") {
            let (a, r) = split_at(r, &['/', '?', '#']);
            p.authority = Some(a.to_string());
            rest = r;
        }
        let (path, r) = split_at(rest, &['?', '#']);
        p.path = path.to_string();
        rest = r;
        if let Some(r) = rest.strip_prefix('?') {
            let (q, r) = split_at(r, &['#']);
            p.query = Some(q.to_string());
            rest = r;
        }
        if let Some(f) = rest.strip_prefix('#') {
            p.fragment = Some(f.to_string());
        }
        p
    }

    pub fn auth(&self) -> Option<Auth> {
        self.authority.as_deref().map(Auth::parse)
    }
}

/// Section 5.3.
impl fmt::Display for Parts {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if let Some(s) = &self.scheme {
            write!(f, "{s}:")?;
        }
        if let Some(a) = &self.authority {
            write!(f, "//{a}")?;
        }
        write!(f, "{}", self.path)?;
        if let Some(q) = &self.query {
            write!(f, "?{q}")?;
        }
        if let Some(x) = &self.fragment {
            write!(f, "#{x}")?;
        }
        Ok(())
    }
}

impl Auth {
    /// `[ userinfo "@" ] host [ ":" port ]`. `@` occurs in none of the three;
    /// `:` occurs in a host only inside brackets.
    pub fn parse(s: &str) -> Auth {
        let (userinfo, hp) = match s.split_once('@') {
            Some((u, r)) => (Some(u.to_string()), r),
            None => (None, s),
        };
        let (host, port) = if hp.starts_with('[') {
            let i = hp.rfind(']').unwrap() + 1;
            (&hp[..i], hp[i..].strip_prefix(':'))
        } else {
            match hp.split_once(':') {
                Some((h, p)) => (h, Some(p)),
                None => (hp, None),
            }
        };
        Auth {
            userinfo,
            host: host.to_string(),
            port: port.map(str::to_string),
        }
    }
    /// Whether the host is a registered name.
    pub fn is_reg_name(&self) -> bool {
        !self.host.starts_with('[') && !rfc::valid(rfc::Kind::Ipv4, false, &self.host)
    }
}
impl fmt::Display for Auth {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if let Some(u) = &self.userinfo {
            write!(f, "{u}@")?;
        }
        write!(f, "{}", self.host)?;
        if let Some(p) = &self.port {
            write!(f, ":{p}")?;
        }
        Ok(())
    }
}

/// Whether the segment is `.` (1) or `..` (2), a dot possibly written `%2e`.
pub fn dots(seg: &str) -> usize {
    if seg.len() > 6 {
        return 0;
    }
    match seg.replace("%2e", ".").replace("%2E", ".").as_str() {
        "." => 1,
        ".." => 2,
        _ => 0,
    }
}

/// Section 5.2.4, with the input buffer cut at segment borders.
pub fn remove_dot_segments(path: &str) -> String {
    let mut input = path;
    let mut out = String::new();
    while !input.is_empty() {
        let lead = usize::from(input.starts_with('/'));
        let end = input[lead..].find('/').map_or(input.len(), |i| i + lead);
        let seg = &input[lead..end];
        let last = end == input.len();
        match (lead, dots(seg), last) {
            // A. "../" or "./": remove that prefix.
            (0, 1 | 2, false) => input = &input[end + 1..],
            // B. "/./" or "/.": replace with "/".
            (1, 1, _) => input = if last { "/" } else { &input[end..] },
            // C. "/../" or "/..": likewise, and remove the last output segment.
            (1, 2, _) => {
                input = if last { "/" } else { &input[end..] };
                out.truncate(out.rfind('/').unwrap_or(0));
            }
            // D. "." or "..": remove.
            (0, 1 | 2, true) => input = "",
            // E. Move the first segment with its slash.
            _ => {
                out.push_str(&input[..end]);
                input = &input[end..];
            }
        }
    }
    out
}

/// Section 5.2.3.
pub fn merge(base: &Parts, ref_path: &str) -> String {
    if base.authority.is_some() && base.path.is_empty() {
        return format!("/{ref_path}");
    }
    match base.path.rfind('/') {
        Some(i) => format!("{}{}", &base.path[..=i], ref_path),
        None => ref_path.to_string(),
    }
}

/// What happens to the path of a resolution result.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// Resolution only.
    None,
    /// Normalization.
    Default,
    /// Normalization that keeps a relative path without authority.
    Preserve,
}

/// The target before dot-segment removal, and whether the algorithm of section
/// 5.2.2 removes dot segments from it.
pub fn target(base: &Parts, r: &Parts) -> (Parts, bool) {
    let mut t = Parts {
        fragment: r.fragment.clone(),
        ..Parts::default()
    };
    let mut remove = true;
    if r.scheme.is_some() {
        t.scheme = r.scheme.clone();
        t.authority = r.authority.clone();
        t.path = r.path.clone();
        t.query = r.query.clone();
    } else {
        t.scheme = base.scheme.clone();
        if r.authority.is_some() {
            t.authority = r.authority.clone();
            t.path = r.path.clone();
            t.query = r.query.clone();
        } else {
            t.authority = base.authority.clone();
            if r.path.is_empty() {
                t.path = base.path.clone();
                remove = false;
                t.query = if r.query.is_some() { r.query.clone() } else { base.query.clone() };
            } else {
                t.path = if r.path.starts_with('/') { r.path.clone() } else { merge(base, &r.path) };
                t.query = r.query.clone();
            }
        }
    }
    (t, remove)
}

/// Finishes a target: dot-segment removal, normalization, serialization guard.
/// Also tells whether the plain RFC 3986 result has no serialization.
pub fn finish(t: &Parts, remove: bool, mode: Mode, iri: bool) -> (Parts, bool) {
    let mut p = t.clone();
    let ambiguous = |p: &Parts, path: &str| p.authority.is_none() && path.starts_with("//");
    let remove = remove || mode != Mode::None;
    let removed = remove_dot_segments(&t.path);
    let failed = remove && ambiguous(&p, &removed);
    let opaque = mode == Mode::Preserve && p.authority.is_none() && !t.path.starts_with('/');
    if remove && !opaque {
        p.path = removed;
    }
    if mode != Mode::None {
        p.scheme = p.scheme.map(|s| s.to_ascii_lowercase());
        p.authority = p.authority.map(|a| norm_authority(&a, iri));
        p.path = pct_case(&p.path, iri);
        p.query = p.query.map(|q| pct_case(&q, iri));
        p.fragment = p.fragment.map(|q| pct_case(&q, iri));
    }
    if ambiguous(&p, &p.path) {
        p.path.insert_str(0, "/.");
    }
    (p, failed)
}

pub fn resolve(base: &Parts, r: &Parts, mode: Mode, iri: bool) -> (Parts, bool) {
    let (t, remove) = target(base, r);
    finish(&t, remove, mode, iri)
}

pub fn normalize(p: &Parts, mode: Mode, iri: bool) -> (Parts, bool) {
    finish(p, true, mode, iri)
}

fn is_unreserved(c: char, iri: bool) -> bool {
    c.is_ascii_alphanumeric() || "-._~".contains(c) || (iri && rfc::is_ucschar(c))
}

pub fn hex2(b: &[u8]) -> Option<u8> {
    let h = |c: u8| (c as char).to_digit(16);
    match b {
        [a, b, ..] => Some((h(*a)? * 16 + h(*b)?) as u8),
        _ => None,
    }
}

/// The first character of a byte sequence, if it starts with valid UTF-8.
pub fn first_char(b: &[u8]) -> Option<char> {
    (1..=b.len().min(4)).find_map(|n| std::str::from_utf8(&b[..n]).ok()).and_then(|s| s.chars().next())
}

/// Section 6.2.2.1 (hexadecimal digits) and 6.2.2.2.
pub fn pct_case(s: &str, iri: bool) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'%' {
            let c = s[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
            continue;
        }
        // The maximal run of triplets.
        let mut run = Vec::new();
        while i < b.len() && b[i] == b'%' {
            run.push(hex2(&b[i + 1..]).expect("valid triplets"));
            i += 3;
        }
        let mut k = 0;
        while k < run.len() {
            match first_char(&run[k..]) {
                Some(c) if is_unreserved(c, iri) => {
                    out.push(c);
                    k += c.len_utf8();
                }
                _ => {
                    out.push_str(&format!("%{:02X}", run[k]));
                    k += 1;
                }
            }
        }
    }
    out
}

/// Whether the text is ASCII, percent triplets included.
fn ascii_only(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).all(|i| b[i].is_ascii() && (b[i] != b'%' || hex2(&b[i + 1..]).is_some_and(|x| x.is_ascii())))
}

/// Section 6.2.2.1 (host) and 6.2.3 (empty port).
fn norm_authority(a: &str, iri: bool) -> String {
    let mut a = Auth::parse(a);
    a.userinfo = a.userinfo.map(|u| pct_case(&u, iri));
    a.host = if ascii_only(&a.host) {
        // Letters outside of triplets are lowered, before and after decoding.
        let d = pct_case(&a.host, iri);
        let mut out = String::new();
        let mut it = d.chars();
        while let Some(c) = it.next() {
            if c == '%' {
                out.push(c);
                out.extend(it.by_ref().take(2));
            } else {
                out.push(c.to_ascii_lowercase());
            }
        }
        out
    } else {
        pct_case(&a.host, iri)
    };
    if a.port.as_deref() == Some("") {
        a.port = None;
    }
    a.to_string()
}
