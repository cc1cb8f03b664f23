//! RFC 6570: a reader of templates, the expansion algorithm and generators.

use crate::engine::*;
use crate::dict;
use crate::gen;
use crate::abnf::MAX_CHARS;
use crate::rfc::{self, grammar};

/// Judges by the grammar. Literals are restricted to ASCII and the operators reserved
/// for future extensions are not supported (both documented).
pub fn valid_template(s: &str) -> bool {
    if s.chars().count() <= MAX_CHARS {
        grammar().matches("supported-template", s)
    } else {
        compact(s)
    }
}
pub fn valid_varname(s: &str) -> bool {
    if s.chars().count() <= MAX_CHARS {
        grammar().matches("varname", s)
    } else {
        compact_varname(s)
    }
}

/// The grammar in linear time, for longer inputs; compared with it on shorter ones.
pub fn compact(s: &str) -> bool {
    let literal = |l: &str| {
        let b = l.as_bytes();
        (0..b.len()).all(|i| match b[i] {
            b'%' => hex_triplet(&b[i..]).is_some(),
            c => c.is_ascii_graphic() && !b"\"<>\\^`{|}".contains(&c),
        })
    };
    s.split('{').enumerate().all(|(i, piece)| {
        if i == 0 {
            return literal(piece);
        }
        let Some((body, rest)) = piece.split_once('}') else { return false };
        let list = body.strip_prefix(['+', '#', '.', '/', ';', '?', '&']).unwrap_or(body);
        let varspec = |v: &str| {
            let name = match v.split_once(':') {
                Some((n, k)) => {
                    if k.is_empty() || k.len() > 4 || k.starts_with('0') || !k.bytes().all(|c| c.is_ascii_digit()) {
                        return false;
                    }
                    n
                }
                None => v.strip_suffix('*').unwrap_or(v),
            };
            compact_varname(name)
        };
        literal(rest) && list.split(',').all(varspec)
    })
}
pub fn compact_varname(s: &str) -> bool {
    s.split('.').all(|label| {
        let b = label.as_bytes();
        let triplet = |i: usize| hex_triplet(&b[i..]).is_some();
        !b.is_empty() && (0..b.len()).all(|i| if b[i] == b'%' { triplet(i) } else { b[i].is_ascii_alphanumeric() || b[i] == b'_' })
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mod {
    None,
    Explode,
    Prefix(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub name: String,
    pub modifier: Mod,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(String),
    Expr(Option<char>, Vec<Spec>),
}

/// Reads a valid template.
pub fn read(t: &str) -> Vec<Part> {
    let mut out = Vec::new();
    for (i, piece) in t.split('{').enumerate() {
        let mut lit = piece;
        if i > 0 {
            let (body, rest) = piece.split_once('}').expect("valid template");
            lit = rest;
            let op = body.chars().next().filter(|c| "+#./;?&".contains(*c));
            let list = &body[op.map_or(0, |_| 1)..];
            let specs = list.split(',').map(|s| {
                if let Some((n, k)) = s.split_once(':') {
                    Spec { name: n.into(), modifier: Mod::Prefix(k.parse().unwrap()) }
                } else if let Some((n, _)) = s.split_once('*') {
                    Spec { name: n.into(), modifier: Mod::Explode }
                } else {
                    Spec { name: s.into(), modifier: Mod::None }
                }
            });
            out.push(Part::Expr(op, specs.collect()));
        }
        if !lit.is_empty() {
            out.push(Part::Lit(lit.into()));
        }
    }
    out
}

pub fn variables(parts: &[Part]) -> Vec<String> {
    let mut v = Vec::new();
    for p in parts {
        if let Part::Expr(_, specs) = p {
            v.extend(specs.iter().map(|s| s.name.clone()));
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
impl Val {
    pub fn defined(&self) -> bool {
        match self {
            Val::Undef => false,
            Val::Str(_) => true,
            Val::List(l) => !l.is_empty(),
            Val::Assoc(l) => !l.is_empty(),
        }
    }
    pub fn nonempty_composite(&self) -> bool {
        self.defined() && !matches!(self, Val::Str(_))
    }
}

fn hex_triplet(b: &[u8]) -> Option<u8> {
    if b.len() >= 3 && b[0] == b'%' {
        let h = char::from(b[1]).to_digit(16)?;
        let l = char::from(b[2]).to_digit(16)?;
        return Some((h * 16 + l) as u8);
    }
    None
}

fn encode_char(c: char, reserved: bool, iri: bool, out: &mut String) {
    let stays = rfc::is_unreserved(c, iri)
        || (reserved && (rfc::is_sub_delim(c) || rfc::is_gen_delim(c) || (iri && rfc::is_iprivate(c))));
    if stays {
        out.push(c);
    } else {
        let mut buf = [0; 4];
        for b in c.encode_utf8(&mut buf).bytes() {
            out.push_str(&format!("%{b:02X}"));
        }
    }
}

/// Splits into characters. With `reserved`, triplets that make up a UTF-8 character
/// are one unit, and so is every other triplet.
fn units(s: &str, reserved: bool) -> Vec<&str> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let mut n = s[i..].chars().next().unwrap().len_utf8();
        if reserved && hex_triplet(&s.as_bytes()[i..]).is_some() {
            n = 3;
            let mut bytes = Vec::new();
            for k in 0..4 {
                match hex_triplet(&s.as_bytes()[(i + 3 * k).min(s.len())..]) {
                    Some(b) => bytes.push(b),
                    None => break,
                }
                if std::str::from_utf8(&bytes).is_ok() {
                    n = bytes.len() * 3;
                    break;
                }
            }
        }
        v.push(&s[i..i + n]);
        i += n;
    }
    v
}

pub fn encode(s: &str, reserved: bool, iri: bool, max: Option<usize>) -> String {
    let mut out = String::new();
    for u in units(s, reserved).into_iter().take(max.unwrap_or(usize::MAX)) {
        if reserved && u.len() >= 3 && hex_triplet(u.as_bytes()).is_some() {
            out.push_str(u);
        } else {
            encode_char(u.chars().next().unwrap(), reserved, iri, &mut out);
        }
    }
    out
}

/// A place where RFC 6570 leaves open whether there is an `=`: a composite value that
/// is not exploded, whose members join to nothing, named by an operator with empty `ifemp`.
pub const OPEN_EQ: char = '\u{1}';

/// The expansion of section 3.2, with `OPEN_EQ` marks. `Err`: index of the part and
/// number of the variable with a prefix modifier on a composite value.
pub fn expand(parts: &[Part], get: &dyn Fn(&str) -> Val, iri: bool) -> Result<String, (usize, usize)> {
    let mut out = String::new();
    for (pi, p) in parts.iter().enumerate() {
        let (op, specs) = match p {
            Part::Lit(l) => {
                out.push_str(l);
                continue;
            }
            Part::Expr(op, specs) => (op, specs),
        };
        let (first, sep, named, ifemp, reserved) = match op {
            None => ("", ",", false, "", false),
            Some('+') => ("", ",", false, "", true),
            Some('#') => ("#", ",", false, "", true),
            Some('.') => (".", ".", false, "", false),
            Some('/') => ("/", "/", false, "", false),
            Some(';') => (";", ";", true, "", false),
            Some('?') => ("?", "&", true, "=", false),
            Some('&') => ("&", "&", true, "=", false),
            _ => unreachable!(),
        };
        let e = |s: &str| encode(s, reserved, iri, None);
        let mut any = false;
        for (vi, spec) in specs.iter().enumerate() {
            let v = get(&spec.name);
            if matches!(spec.modifier, Mod::Prefix(_)) && v.nonempty_composite() {
                return Err((pi, vi));
            }
            if !v.defined() {
                continue;
            }
            out.push_str(if any { sep } else { first });
            any = true;
            // `name=value`, or `name` and `ifemp`.
            let pair = |name: &str, value: &str| {
                if value.is_empty() {
                    format!("{name}{ifemp}")
                } else {
                    format!("{name}={value}")
                }
            };
            let joined = |items: Vec<String>| {
                let value = items.join(",");
                if !named {
                    value
                } else if value.is_empty() {
                    format!("{}{}", spec.name, if ifemp.is_empty() { OPEN_EQ.to_string() } else { ifemp.to_string() })
                } else {
                    format!("{}={}", spec.name, value)
                }
            };
            let exploded = spec.modifier == Mod::Explode;
            out.push_str(&match v {
                Val::Undef => unreachable!(),
                Val::Str(s) => {
                    let max = match spec.modifier {
                        Mod::Prefix(n) => Some(n),
                        _ => None,
                    };
                    let value = encode(&s, reserved, iri, max);
                    if named {
                        pair(&spec.name, &value)
                    } else {
                        value
                    }
                }
                Val::List(l) if exploded => {
                    let it = l.iter().map(|s| if named { pair(&spec.name, &e(s)) } else { e(s) });
                    it.collect::<Vec<_>>().join(sep)
                }
                Val::List(l) => joined(l.iter().map(|s| e(s)).collect()),
                Val::Assoc(l) if exploded => {
                    let it = l.iter().map(|(k, v)| if named { pair(&e(k), &e(v)) } else { format!("{}={}", e(k), e(v)) });
                    it.collect::<Vec<_>>().join(sep)
                }
                Val::Assoc(l) => joined(l.iter().flat_map(|(k, v)| [e(k), e(v)]).collect()),
            });
        }
    }
    Ok(out)
}

/// Whether the text is the expansion, either way at the open places.
pub fn same(expected: &str, got: &str) -> bool {
    got == expected.replace(OPEN_EQ, "") || got == expected.replace(OPEN_EQ, "=")
}

// Generators.

pub fn varname(src: &mut Src) -> String {
    if dict::wanted(src) {
        let s = dict::only(src, |c| c.is_ascii_alphanumeric() || c == '_');
        if !s.is_empty() {
            return s;
        }
    }
    match src.weighted(&[30, 6]) {
        0 => src.pick(&["a", "b", "c", "var", "list", "x.y", "%41", "a_1", "0", "_", "a%C3%a9.z", "B"]).to_string(),
        _ => {
            let mut s = String::new();
            for i in 0..=src.small_len(6) {
                if i > 0 && src.chance(1, 4) {
                    s.push('.');
                }
                match src.weighted(&[10, 2]) {
                    0 => s.push(src.pick_c(b"abcxyzAZ019_") as char),
                    _ => s.push_str(&format!("%{:02X}", src.below(256))),
                }
            }
            gen::stretch(src, s)
        }
    }
}

pub fn spec(src: &mut Src, names: &[String]) -> Spec {
    let name = if !names.is_empty() && src.chance(3, 4) { names[src.idx(names.len())].clone() } else { varname(src) };
    let modifier = match src.weighted(&[5, 3, 3]) {
        0 => Mod::None,
        1 => Mod::Explode,
        _ => Mod::Prefix(match src.weighted(&[8, 2, 1]) {
            0 => src.range(1, 8),
            1 => src.range(1, 40),
            _ => prefix_len(src),
        } as usize),
    };
    Spec { name, modifier }
}

/// A long prefix, every power of two and of ten with its neighbours among them.
fn prefix_len(src: &mut Src) -> u64 {
    if src.chance(1, 4) {
        if let Some(n) = dict::number_up_to(src, 9999).filter(|n| *n > 0) {
            return n;
        }
    }
    match src.weighted(&[1, 2, 1]) {
        0 => src.pick_c(&[9999, 1000, 100, 256, 999]),
        1 => (1 << src.range(5, 13)) + src.below(3) - 1,
        _ => src.range(1, 9999),
    }
}

pub fn literal(src: &mut Src) -> String {
    let mut s = String::new();
    for _ in 0..=src.small_len(8) {
        match src.weighted(&[6, 3, 2]) {
            0 => s.push(src.pick_c(b"abcxyz019-._~") as char),
            1 => s.push(src.pick_c(b"!#$&'()*+,/:;=?@[]") as char),
            _ => gen::pct(src, &mut s),
        }
    }
    if dict::wanted(src) {
        s.push_str(&dict::text(src, |c| "-._~!#$&'()*+,/:;=?@[]".contains(c)));
    }
    gen::stretch(src, s)
}

pub fn show_part(p: &Part) -> String {
    match p {
        Part::Lit(l) => l.clone(),
        Part::Expr(op, specs) => {
            let list: Vec<String> = specs
                .iter()
                .map(|s| match s.modifier {
                    Mod::None => s.name.clone(),
                    Mod::Explode => format!("{}*", s.name),
                    Mod::Prefix(n) => format!("{}:{}", s.name, n),
                })
                .collect();
            format!("{{{}{}}}", op.map(String::from).unwrap_or_default(), list.join(","))
        }
    }
}

pub const OPS: [Option<char>; 8] =
    [None, Some('+'), Some('#'), Some('.'), Some('/'), Some(';'), Some('?'), Some('&')];

/// A valid template.
pub fn template(src: &mut Src, names: &[String], max: usize) -> String {
    let mut t = String::new();
    for _ in 0..src.small_len(max) {
        let p = match src.weighted(&[2, 5]) {
            0 => Part::Lit(literal(src)),
            _ => {
                let op = src.pick_c(&OPS);
                let n = match src.chance(1, 250) {
                    true => gen::long_len(src, 7),
                    false => 1 + src.small_len(4),
                };
                Part::Expr(op, (0..n).map(|_| spec(src, names)).collect())
            }
        };
        t.push_str(&show_part(&p));
    }
    if src.chance(1, 1000) {
        let n = gen::long_len(src, 6);
        t = t.repeat(n);
    }
    t
}

/// A value text: rich in reserved characters, percent signs and non-ASCII characters.
pub fn value_text(src: &mut Src) -> String {
    let s = value_text_short(src);
    if src.chance(1, 200) && !s.is_empty() {
        return gen::stretch_to_chars(src, &s, 10_050);
    }
    s
}
fn value_text_short(src: &mut Src) -> String {
    if dict::wanted(src) {
        let s = dict::raw(src);
        return if src.bool() { s } else { s + "a" };
    }
    match src.weighted(&[2, 6, 4, 4, 3]) {
        0 => String::new(),
        1 => src.pick(&["a", "value", "Hello World!", "50%", "/foo/bar", "%41", "%zz", "\u{E9}", "\u{3042}\u{3044}", "a,b", "red", "%E3%81%82x", "\u{E000}", "1024", "semi"]).to_string(),
        2 => {
            let mut s = String::new();
            for _ in 0..src.small_len(10) {
                match src.weighted(&[4, 3, 4, 2, 2, 1, 1]) {
                    0 => s.push(src.pick_c(b"abcXYZ019") as char),
                    1 => s.push(src.pick_c(b"-._~!#$&'()*+,/:;=?@[] \"<>\\^`{|}") as char),
                    2 => gen::pct(src, &mut s),
                    3 => s.push(gen::any_nonascii(src)),
                    4 => s.push('%'),
                    5 => s.push_str(&format!("%{:x}", src.below(16))),
                    _ => s.push(gen::any_char(src)),
                }
            }
            s
        }
        3 => {
            // Triplets of bytes of, and around, UTF-8 characters.
            let mut s = String::new();
            for _ in 0..=src.small_len(6) {
                match src.weighted(&[4, 4, 2, 2]) {
                    0 => {
                        let c = src.pick_c(&['a', '\u{7F}', '\u{80}', '\u{E9}', '\u{7FF}', '\u{800}', '\u{3042}', '\u{FFFF}', '\u{10000}', '\u{1F600}', '\u{10FFFF}', '%']);
                        let mut buf = [0; 4];
                        let bytes = c.encode_utf8(&mut buf).as_bytes();
                        let n = if src.chance(1, 4) { 1 + src.idx(bytes.len()) } else { bytes.len() };
                        let lower = src.bool();
                        for b in &bytes[..n] {
                            s.push_str(&if lower { format!("%{b:02x}") } else { format!("%{b:02X}") });
                        }
                    }
                    1 => {
                        let b = src.pick_c(&[0x41u8, 0x80, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE3, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x82, 0x81, 0x9F, 0xA0, 0x90, 0x8F]);
                        s.push_str(&format!("%{b:02X}"));
                    }
                    2 => s.push_str(src.pick(&["%", "%4", "%e", "%%", "%g1", "%1g", "%\u{E9}", "%4\u{3042}"])),
                    _ => s.push_str(src.pick(&["a", "bc", "\u{3042}", "/", " ", "\u{1F600}"])),
                }
            }
            s
        }
        _ => {
            let iri = src.bool();
            gen::maybe(src, iri, crate::rfc::Kind::Reference)
        }
    }
}

pub fn value(src: &mut Src) -> Val {
    match src.weighted(&[2, 6, 4, 4]) {
        0 => Val::Undef,
        1 => Val::Str(value_text(src)),
        2 => {
            let n = match src.weighted(&[96, 3, 1]) {
                0 => src.small_len(5),
                1 => dict::number_up_to(src, 260).unwrap_or(3) as usize,
                _ => gen::long_len(src, 8),
            };
            Val::List((0..n).map(|_| value_text(src)).collect())
        }
        _ => {
            let n = src.small_len(4);
            Val::Assoc(
                (0..n)
                    .map(|_| {
                        let k = if src.chance(1, 4) { value_text(src) } else { src.pick(&["k", "semi", "dot", "comma", "k"]).to_string() };
                        (k, value_text(src))
                    })
                    .collect(),
            )
        }
    }
}
