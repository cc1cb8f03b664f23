//! Generators of strings of and around the RFC 3986/3987 grammar.

use crate::dict;
use crate::engine::Src;
use crate::rfc::{self, Kind};

pub const UCS_EDGE: &[char] = &[
    '\u{E9}', '\u{3B1}', '\u{3042}', '\u{1F600}', '\u{A0}', '\u{D7FF}', '\u{F900}', '\u{FDCF}', '\u{FDF0}',
    '\u{FFEF}', '\u{10000}', '\u{1FFFD}', '\u{20000}', '\u{E1000}', '\u{EFFFD}', '\u{C0}', '\u{DF}', '\u{7FF}', '\u{800}',
];
pub const IPRIVATE_EDGE: &[char] = &['\u{E000}', '\u{F8FF}', '\u{F0000}', '\u{FFFFD}', '\u{100000}', '\u{10FFFD}'];
/// Not allowed anywhere in an IRI.
pub const NEVER: &[char] = &[
    ' ', '"', '<', '>', '\\', '^', '`', '{', '|', '}', '\0', '\u{7F}', '\n', '\u{80}', '\u{9F}', '\u{FDD0}', '\u{FDEF}',
    '\u{FFF0}', '\u{FFFE}', '\u{1FFFE}', '\u{E0000}', '\u{E0FFF}', '\u{FFFFE}', '\u{10FFFF}', '\u{FFFD}',
];
const UNRESERVED: &str = "abcxyzABCZ0129-._~";
const SUBDELIMS: &str = "!$&'()*+,;=";
const GENDELIMS: &str = ":/?#[]@";

fn ch(src: &mut Src, s: &str) -> char {
    let v: Vec<char> = s.chars().collect();
    v[src.idx(v.len())]
}

pub fn hexdig(src: &mut Src) -> char {
    ch(src, "0123456789abcdefABCDEF")
}

fn triplet(src: &mut Src, b: u8, out: &mut String) {
    let s = if src.bool() { format!("%{b:02X}") } else { format!("%{b:02x}") };
    if src.chance(1, 8) {
        // Mixed case.
        let mut c: Vec<char> = s.chars().collect();
        c[1] = c[1].to_ascii_uppercase();
        c[2] = c[2].to_ascii_lowercase();
        out.extend(c);
    } else {
        out.push_str(&s);
    }
}

/// A length up to about 2^`max_log`: half of them at a power of two or next to it.
pub fn long_len(src: &mut Src, max_log: u64) -> usize {
    let n = 1usize << src.range(5, max_log);
    if src.bool() {
        n + src.idx(5) - 2
    } else {
        n / 2 + src.idx(n)
    }
}

/// Sometimes makes a text long by repetition, up to an exact number of bytes. The
/// text must be closed under repetition and addition of letters.
pub fn stretch(src: &mut Src, s: String) -> String {
    stretch_up_to(src, s, 16)
}
/// Resolution of a path of n segments can take time proportional to n squared.
fn stretch_path(src: &mut Src, s: String) -> String {
    stretch_up_to(src, s, 12)
}
fn stretch_up_to(src: &mut Src, s: String, max_log: u64) -> String {
    match src.weighted(&[RARE - 4, 3, 1]) {
        0 => s,
        1 => match dict::number_up_to(src, 1 << max_log) {
            Some(n) => fill(src, &s, n.max(1) as usize, str::len),
            None => s,
        },
        _ => {
            let n = long_len(src, max_log);
            fill(src, &s, n, str::len)
        }
    }
}
/// One in so many texts is long.
const RARE: u64 = 600;

fn fill(src: &mut Src, s: &str, n: usize, len: fn(&str) -> usize) -> String {
    let one = len(s).max(1);
    let body = s.repeat(if s.is_empty() { 0 } else { n / one });
    let pad = "a".repeat(n - len(&body));
    if src.bool() {
        pad + &body
    } else {
        body + &pad
    }
}
pub fn stretch_to_chars(src: &mut Src, s: &str, max: usize) -> String {
    let n = long_len(src, 14).min(max);
    fill(src, s, n, |s| s.chars().count())
}

/// Appends percent-encoded text: ASCII, whole characters, broken sequences.
pub fn pct(src: &mut Src, out: &mut String) {
    match src.weighted(&[4, 3, 5, 3, 3, 2]) {
        0 => {
            let b = ch(src, "aAzZ09-._~") as u8;
            triplet(src, b, out)
        }
        1 => {
            let b = ch(src, "!/:?#[]@%& \u{0}\u{7f}\"<") as u8;
            triplet(src, b, out)
        }
        2 => {
            // A whole non-ASCII character, any plane, edges included.
            let c = any_nonascii(src);
            let mut buf = [0; 4];
            for b in c.encode_utf8(&mut buf).bytes() {
                triplet(src, b, out);
            }
        }
        3 => {
            // A sequence that is cut or damaged.
            let c = any_nonascii(src);
            let mut buf = [0; 4];
            let mut v: Vec<u8> = c.encode_utf8(&mut buf).bytes().collect();
            match src.idx(3) {
                0 => {
                    v.pop();
                }
                1 => {
                    v.remove(0);
                }
                _ => {
                    let i = src.idx(v.len());
                    v[i] = src.below(256) as u8;
                }
            }
            for b in v {
                triplet(src, b, out);
            }
        }
        4 => {
            // Byte sequences near the edges of UTF-8 validity.
            let seqs: &[&[u8]] = &[
                &[0xC0, 0x80],
                &[0xC1, 0xBF],
                &[0xC2, 0x80],
                &[0xE0, 0x80, 0x80],
                &[0xE0, 0x9F, 0xBF],
                &[0xE0, 0xA0, 0x80],
                &[0xED, 0x9F, 0xBF],
                &[0xED, 0xA0, 0x80],
                &[0xED, 0xBF, 0xBF],
                &[0xEE, 0x80, 0x80],
                &[0xEF, 0xBF, 0xBF],
                &[0xF0, 0x80, 0x80, 0x80],
                &[0xF0, 0x8F, 0xBF, 0xBF],
                &[0xF0, 0x90, 0x80, 0x80],
                &[0xF4, 0x8F, 0xBF, 0xBF],
                &[0xF4, 0x90, 0x80, 0x80],
                &[0xF5, 0x80, 0x80, 0x80],
                &[0xFF],
                &[0x80],
                &[0xC3, 0xC3, 0xA9],
                &[0xE3, 0x81, 0x41],
                &[0xE3, 0xE3, 0x81, 0x82],
                &[0xCE],
                &[0xF0, 0x9F, 0x98],
            ];
            let i = src.idx(seqs.len());
            for b in seqs[i] {
                triplet(src, *b, out);
            }
        }
        _ => {
            out.push('%');
            let a = hexdig(src);
            let b = hexdig(src);
            out.push(a);
            out.push(b);
        }
    }
}

pub fn any_nonascii(src: &mut Src) -> char {
    if dict::wanted(src) {
        if let Some(c) = dict::character_of(src).filter(|c| !c.is_ascii()) {
            return c;
        }
    }
    match src.weighted(&[5, 2, 2, 2]) {
        0 => src.pick_c(UCS_EDGE),
        1 => src.pick_c(IPRIVATE_EDGE),
        2 => src.pick_c(&NEVER[13..]),
        _ => loop {
            // `from_u32` fails only for surrogates; step over them.
            let v = src.range(0x80, 0x10_FFFF) as u32;
            match char::from_u32(v) {
                Some(c) => break c,
                None => break '\u{D7FF}',
            }
        },
    }
}

/// Whether the code point is next to an edge of a class, in some plane.
pub fn near_edge(c: u64) -> bool {
    let l = c & 0xFFFF;
    [0, 0xA0, 0x1000, 0xD800, 0xE000, 0xF900, 0xFDD0, 0xFDF0, 0xFFF0, 0xFFFE, 0x1_0000].iter().any(|e| l + 2 >= *e && l < e + 2)
}

/// Any character, skewed to the ones that matter.
pub fn any_char(src: &mut Src) -> char {
    if dict::wanted(src) {
        if let Some(c) = dict::character_of(src) {
            return c;
        }
    }
    match src.weighted(&[8, 3, 5, 3, 3, 2, 2]) {
        0 => ch(src, UNRESERVED),
        1 => ch(src, SUBDELIMS),
        2 => ch(src, GENDELIMS),
        3 => '%',
        4 => any_nonascii(src),
        5 => src.pick_c(NEVER),
        _ => char::from(src.below(128) as u8),
    }
}

/// Text of a component: characters in `extra`, unreserved, sub-delims, percent
/// encoding and, for IRIs, `ucschar`.
pub fn text(src: &mut Src, iri: bool, extra: &str, max: usize, private: bool) -> String {
    let n = src.small_len(max);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[10, 3, 4, if extra.is_empty() { 0 } else { 4 }, if iri { 4 } else { 0 }, if private { 2 } else { 0 }]) {
            0 => s.push(ch(src, UNRESERVED)),
            1 => s.push(ch(src, SUBDELIMS)),
            2 => pct(src, &mut s),
            3 => s.push(ch(src, extra)),
            4 => s.push(ucschar(src)),
            _ => s.push(src.pick_c(IPRIVATE_EDGE)),
        }
    }
    if dict::wanted(src) {
        let t = known(src, iri, extra, private);
        s = if src.bool() { s + &t } else { t + &s };
    }
    stretch(src, s)
}

/// A string of the dictionary, as text of a component.
fn known(src: &mut Src, iri: bool, extra: &str, private: bool) -> String {
    dict::text(src, |c| {
        UNRESERVED.contains(c) || SUBDELIMS.contains(c) || extra.contains(c) || (iri && rfc::is_ucschar(c)) || (private && rfc::is_iprivate(c))
    })
}

pub fn ucschar(src: &mut Src) -> char {
    if src.chance(1, 8) {
        let c = any_nonascii(src);
        if rfc::is_ucschar(c) {
            return c;
        }
    }
    src.pick_c(UCS_EDGE)
}

pub fn scheme(src: &mut Src) -> String {
    if dict::wanted(src) {
        let s = dict::only(src, |c| c.is_ascii_alphanumeric() || "+-.".contains(c));
        if s.starts_with(|c: char| c.is_ascii_alphabetic()) {
            return s;
        }
    }
    match src.weighted(&[6, 3]) {
        0 => src
            .pick(&["a", "http", "urn", "HTTP", "foo", "hTTps", "a+b-c.d", "Z9", "mailto"])
            .to_string(),
        _ => {
            let mut s = String::new();
            s.push(ch(src, "abzABZ"));
            for _ in 0..src.small_len(6) {
                s.push(ch(src, "abzABZ019+-."));
            }
            if src.chance(1, RARE) {
                let n = long_len(src, 13);
                s = fill(src, &s, n, str::len);
            }
            s
        }
    }
}

fn octet(src: &mut Src) -> String {
    if dict::wanted(src) {
        if let Some(n) = dict::number_up_to(src, 255) {
            return n.to_string();
        }
    }
    src.pick(&["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255"])
        .to_string()
}
pub fn ipv4(src: &mut Src) -> String {
    (0..4).map(|_| octet(src)).collect::<Vec<_>>().join(".")
}
/// IPv4-like text, often not an IPv4 address.
fn ipv4_like(src: &mut Src) -> String {
    let n = src.range(3, 5);
    (0..n)
        .map(|_| {
            if src.chance(1, 3) {
                src.pick(&["256", "00", "01", "260", "300", "1000", "", "a", "0x1", "999", "025"]).to_string()
            } else {
                octet(src)
            }
        })
        .collect::<Vec<_>>()
        .join(".")
}
fn h16(src: &mut Src) -> String {
    if dict::wanted(src) {
        if let Some(n) = dict::number_up_to(src, 0xFFFF) {
            return format!("{n:x}");
        }
    }
    (0..src.range(1, 4)).map(|_| hexdig(src)).collect()
}
pub fn ipv6(src: &mut Src) -> String {
    let v4 = src.chance(1, 4);
    let total = if v4 { 6 } else { 8 };
    let mut groups: Vec<String> = (0..total).map(|_| h16(src)).collect();
    if v4 {
        groups.push(ipv4(src));
    }
    if src.chance(3, 4) {
        // Replace a run of at least one 16-bit group with `::`.
        let a = src.idx(total);
        let b = a + 1 + src.idx(total - a);
        let left = groups[..a].join(":");
        let right = groups[b..].join(":");
        return format!("{left}::{right}");
    }
    groups.join(":")
}
/// IPv6-like text: an address with a small damage, or arbitrary groups.
fn ipv6_like(src: &mut Src) -> String {
    if src.bool() {
        let s = ipv6(src);
        return mutate_with(src, &s, &[':', '.', '0', '1', 'f', 'G', '[', ']', '%', 'v'], 2);
    }
    let mut s = String::new();
    for _ in 0..src.range(0, 10) {
        match src.weighted(&[4, 4, 2, 1, 1]) {
            0 => s.push(':'),
            1 => s.push_str(&h16(src)),
            2 => s.push_str("::"),
            3 => s.push_str(&ipv4(src)),
            _ => s.push(any_char(src)),
        }
    }
    s
}
fn ipvfuture(src: &mut Src) -> String {
    let mut s = String::new();
    s.push(if src.bool() { 'V' } else { 'v' });
    for _ in 0..src.range(1, 3) {
        s.push(hexdig(src));
    }
    s.push('.');
    for _ in 0..src.range(1, 5) {
        s.push(ch(src, "aZ09-._~!$&'()*+,;=:"));
    }
    if src.chance(1, RARE) {
        let n = long_len(src, 13);
        s.push_str(&fill(src, "1", n, str::len));
    }
    s
}

pub fn host(src: &mut Src, iri: bool) -> String {
    if dict::wanted(src) {
        return known(src, iri, "", false);
    }
    match src.weighted(&[8, 2, 4, 4, 2, 2, 4]) {
        0 => src
            .pick(&["h", "example.com", "Example.COM", "", "localhost", "a-b.C", "%41b", "ex%C3%A9", "%4a%4B", "h%2Fi"])
            .to_string(),
        1 => String::new(),
        2 => ipv4(src),
        3 => format!("[{}]", ipv6(src)),
        4 => format!("[{}]", ipvfuture(src)),
        5 => ipv4_like(src),
        _ => text(src, iri, "", 8, false),
    }
}

/// Host candidate, valid or not.
pub fn host_any(src: &mut Src, iri: bool) -> String {
    match src.weighted(&[10, 3, 3, 2, 2]) {
        0 => host(src, iri),
        1 => format!("[{}]", ipv6_like(src)),
        2 => {
            let h = host(src, iri);
            mutate(src, &h, 2)
        }
        3 => ipv4_like(src),
        _ => soup(src, 8),
    }
}

pub fn userinfo(src: &mut Src, iri: bool) -> String {
    match src.weighted(&[5, 5]) {
        0 => src
            .pick(&["u", "user:pw", "user", "user:", ":", ":pw", "", "u:p:q", "U%41:P%2f", "a::b"])
            .to_string(),
        _ => text(src, iri, ":", 8, false),
    }
}

pub fn port(src: &mut Src) -> String {
    if dict::wanted(src) {
        if let Some(n) = dict::number_up_to(src, u64::MAX) {
            return n.to_string();
        }
    }
    if src.chance(1, RARE) {
        let n = long_len(src, 13);
        return "7".repeat(n);
    }
    src.pick(&["80", "", "0", "8080", "65536", "00080", "123456789012345678901"]).to_string()
}

pub fn authority(src: &mut Src, iri: bool) -> String {
    let mut s = String::new();
    if src.chance(2, 5) {
        s.push_str(&userinfo(src, iri));
        s.push('@');
    }
    s.push_str(&host(src, iri));
    if src.chance(1, 3) {
        s.push(':');
        s.push_str(&port(src));
    }
    s
}

pub fn segment(src: &mut Src, iri: bool) -> String {
    if dict::wanted(src) {
        return known(src, iri, ":@", false);
    }
    match src.weighted(&[8, 5, 6, 4, 3, 3, 5]) {
        0 => src.pick(&["a", "b", "c", "A", "d1"]).to_string(),
        1 => ".".into(),
        2 => "..".into(),
        3 => src
            .pick(&["%2e", "%2E", ".%2e", "%2E.", "%2e%2E", "%2E%2e", "%2e%2e", "%2E%2E", ".%2E", "%2e."])
            .to_string(),
        4 => String::new(),
        5 => src
            .pick(&["...", ".a", "..b", "a:b", ":", "%2f", "%2F..", "a%41", "%7e", "%3A", "%C3%A9", "%c3%a9", "@", "%2e%2e%2e", "~", "%25", "=", "%E3%81", "..%2e", "%2e;", ".%"])
            .to_string()
            .replace(".%", ".%2E"),
        _ => text(src, iri, ":@", 5, false),
    }
}

/// Any path: sequence of segments with or without a leading slash.
pub fn path(src: &mut Src, iri: bool) -> String {
    let mut n = match src.weighted(&[1, 6, 4, 2]) {
        0 => 0,
        1 => src.range(1, 4),
        2 => src.range(2, 9),
        _ => src.range(8, 22),
    };
    if dict::wanted(src) {
        n = dict::number_up_to(src, 60).unwrap_or(n);
    }
    let mut s = String::new();
    if n > 0 && src.chance(2, 3) {
        s.push('/');
    }
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        s.push_str(&segment(src, iri));
        if s.chars().count() > 120 {
            break;
        }
    }
    if n > 0 && src.chance(1, 5) {
        s.push('/');
    }
    stretch_path(src, s)
}

/// Paths made of dots, empty segments and a few names, up to 30 segments.
pub fn dotty_path(src: &mut Src) -> String {
    let mut n = if src.bool() { src.range(1, 7) } else { src.range(6, 30) };
    if dict::wanted(src) {
        n = dict::number_up_to(src, 60).unwrap_or(n);
    }
    let mut s = String::new();
    if src.chance(3, 4) {
        s.push('/');
    }
    let (a, b, c) = (src.range(2, 12), src.range(1, 8), src.range(0, 4));
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        match src.weighted(&[a, b, 2, c, 1]) {
            0 => s.push_str(src.pick(&["a", "b", "c", "A%41", "%3a"])),
            1 => s.push_str(".."),
            2 => s.push('.'),
            3 => {}
            _ => s.push_str(src.pick(&["%2e", "%2E.", ".%2e", "%2e%2E", "..."])),
        }
    }
    if src.chance(1, 4) {
        s.push('/');
    }
    stretch_path(src, s)
}

pub fn query(src: &mut Src, iri: bool) -> String {
    text(src, iri, ":@/?", 8, iri)
}
pub fn fragment(src: &mut Src, iri: bool) -> String {
    text(src, iri, ":@/?", 8, false)
}

/// A path that is valid at its place.
pub fn path_for(src: &mut Src, iri: bool, has_scheme: bool, has_authority: bool) -> String {
    let mut p = if src.chance(1, 5) { dotty_path(src) } else { path(src, iri) };
    if has_authority {
        if !p.is_empty() && !p.starts_with('/') {
            p.insert(0, '/');
        }
    } else {
        if p.starts_with("//") {
            p.insert_str(0, "/.");
        }
        if !has_scheme {
            let first = p.split('/').next().unwrap();
            if first.contains(':') {
                p.insert_str(0, "./");
            }
        }
    }
    p
}

/// A valid IRI/URI reference of the kind (`Reference`, `Full`, `Absolute`, `Relative`).
pub fn valid_ref(src: &mut Src, iri: bool, kind: Kind) -> String {
    let has_scheme = match kind {
        Kind::Reference => src.chance(1, 2),
        Kind::Relative => false,
        _ => true,
    };
    let mut s = String::new();
    if has_scheme {
        s.push_str(&scheme(src));
        s.push(':');
    }
    let has_auth = src.chance(1, 2);
    if has_auth {
        s.push_str("//");
        s.push_str(&authority(src, iri));
    }
    let p = path_for(src, iri, has_scheme, has_auth);
    s.push_str(&p);
    if src.chance(1, 3) {
        s.push('?');
        s.push_str(&query(src, iri));
    }
    if kind != Kind::Absolute && src.chance(1, 3) {
        s.push('#');
        s.push_str(&fragment(src, iri));
    }
    s
}

/// Edits `s` in up to `max` places.
pub fn mutate(src: &mut Src, s: &str, max: usize) -> String {
    mutate_with(src, s, &[], max)
}

fn mutate_with(src: &mut Src, s: &str, pool: &[char], max: usize) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if dict::wanted(src) {
        let t: Vec<char> = dict::raw(src).chars().collect();
        let i = src.idx(v.len() + 1);
        v.splice(i..i, t);
    }
    for _ in 0..src.range(1, max as u64) {
        let c = if pool.is_empty() || src.chance(1, 6) { any_char(src) } else { src.pick_c(pool) };
        match src.weighted(&[4, 4, 3, 2, 1]) {
            0 => {
                let i = src.idx(v.len() + 1);
                v.insert(i, c);
            }
            1 if !v.is_empty() => {
                let i = src.idx(v.len());
                v[i] = c;
            }
            2 if !v.is_empty() => {
                let i = src.idx(v.len());
                v.remove(i);
            }
            3 if !v.is_empty() => {
                let i = src.idx(v.len());
                let x = v[i];
                v.insert(i, x);
            }
            4 if v.len() > 1 => {
                let i = src.idx(v.len() - 1);
                v.swap(i, i + 1);
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// Unstructured string.
pub fn soup(src: &mut Src, max: usize) -> String {
    let n = src.small_len(max);
    (0..n).map(|_| any_char(src)).collect()
}

/// String over a small alphabet (small-scope enumeration uses the same draws:
/// the length, then one draw per character).
pub fn over(src: &mut Src, alphabet: &[&str], max: usize) -> String {
    let n = src.idx(max + 1);
    (0..n).map(|_| alphabet[src.idx(alphabet.len())]).collect()
}

/// Tapes of all strings over an alphabet of `k` symbols with at most `max`
/// symbols, for a generator whose draws are `prefix`, the length, the symbols.
pub fn all_over(prefix: Vec<u64>, k: u64, max: usize) -> impl Iterator<Item = Vec<u64>> {
    (0..=max).flat_map(move |n| {
        let prefix = prefix.clone();
        (0..k.pow(n as u32)).map(move |mut i| {
            let mut t = prefix.clone();
            t.push(n as u64);
            for _ in 0..n {
                t.push(i % k);
                i /= k;
            }
            t
        })
    })
}

/// A string that is often valid as `kind`, sometimes nearly so, sometimes not.
pub fn maybe(src: &mut Src, iri: bool, kind: Kind) -> String {
    match src.weighted(&[5, 4, 1]) {
        0 => {
            let k = if src.chance(1, 6) {
                src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative])
            } else {
                kind
            };
            valid_ref(src, iri, k)
        }
        1 => {
            let s = valid_ref(src, iri, kind);
            mutate(src, &s, 3)
        }
        _ => soup(src, 12),
    }
}
