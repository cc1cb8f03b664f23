//! The literals of the code under test, as a dictionary for the generators.
//!
//! Code that treats one string, character or number in its own way names it somewhere.
//! The sources are read for these names only; what the code does with them is judged as
//! any other case is. Literals that the sources did not have when the checks were written
//! come first.

use std::collections::{BTreeSet, HashSet};
use std::sync::OnceLock;

use crate::engine::Src;

pub struct Dict {
    /// Old ones, then new ones.
    strings: [Vec<String>; 2],
    numbers: [Vec<u64>; 2],
}

static DICT: OnceLock<Dict> = OnceLock::new();
fn dict() -> &'static Dict {
    DICT.get_or_init(|| split(all()))
}
/// Uses the dictionary of a recorded case.
pub fn restore(v: &serde_json::Value) {
    let strings = |k| v[k].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let numbers = |k| v[k].as_array().unwrap().iter().map(|s| s.as_u64().unwrap()).collect();
    let _ = DICT.set(Dict {
        strings: [strings("strings"), strings("new_strings")],
        numbers: [numbers("numbers"), numbers("new_numbers")],
    });
}
pub fn record() -> serde_json::Value {
    let d = dict();
    serde_json::json!({
        "strings": d.strings[0],
        "new_strings": d.strings[1],
        "numbers": d.numbers[0],
        "new_numbers": d.numbers[1],
    })
}

type Tokens = (BTreeSet<String>, BTreeSet<u64>);

/// The literals of the current sources.
fn all() -> Tokens {
    // The harness depends on the crate by its path.
    let manifest = include_str!("../Cargo.toml");
    let root = manifest.split("iri-string = { path = \"").nth(1).and_then(|s| s.split('"').next()).unwrap();
    let mut t = Tokens::default();
    let mut dirs = vec![std::path::PathBuf::from(root).join("src")];
    while let Some(d) = dirs.pop() {
        let Ok(entries) = std::fs::read_dir(d) else { continue };
        for e in entries.flatten().map(|e| e.path()) {
            if e.is_dir() {
                dirs.push(e);
            } else if e.extension().is_some_and(|x| x == "rs") {
                if let Ok(s) = std::fs::read_to_string(&e) {
                    read(s.split("#[cfg(test)]\nmod ").next().unwrap(), &mut t);
                }
            }
        }
    }
    t
}

/// What `iri-verif dict` prints is the file of known literals.
pub fn print() {
    let (s, n) = all();
    println!("{}", serde_json::json!({ "strings": s, "numbers": n }));
}

fn split((strings, numbers): Tokens) -> Dict {
    let known: serde_json::Value = serde_json::from_str(include_str!("dict_known.json")).unwrap();
    let ks: HashSet<&str> = known["strings"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
    let kn: HashSet<u64> = known["numbers"].as_array().unwrap().iter().map(|s| s.as_u64().unwrap()).collect();
    let (s0, s1) = strings.into_iter().partition(|s| ks.contains(&**s));
    let (n0, n1) = numbers.into_iter().partition(|n| kn.contains(n));
    Dict { strings: [s0, s1], numbers: [n0, n1] }
}

/// Adds the literals of a source text.
fn read(text: &str, t: &mut Tokens) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                let mut depth = 1;
                i += 2;
                while i < c.len() && depth > 0 {
                    match (c[i], at(i + 1)) {
                        ('/', '*') => {
                            depth += 1;
                            i += 2;
                        }
                        ('*', '/') => {
                            depth -= 1;
                            i += 2;
                        }
                        _ => i += 1,
                    }
                }
            }
            'r' | 'b' if at(i + 1) == '"' || at(i + 1) == '#' || (c[i] == 'b' && at(i + 1) == 'r') => {
                // A raw or byte string, or a name.
                let mut j = i + 1;
                let raw = c[i] == 'r' || at(j) == 'r';
                if c[i] == 'b' && at(j) == 'r' {
                    j += 1;
                }
                let hashes = c[j..].iter().take_while(|x| **x == '#').count();
                j += hashes;
                if at(j) != '"' || (!raw && hashes > 0) {
                    i += 1;
                    continue;
                }
                if !raw {
                    i = j;
                    continue;
                }
                let end: Vec<char> = std::iter::once('"').chain(std::iter::repeat('#').take(hashes)).collect();
                let mut k = j + 1;
                while k < c.len() && !c[k..].starts_with(&end) {
                    k += 1;
                }
                string(&c[j + 1..k.min(c.len())].iter().collect::<String>(), t);
                i = k + end.len();
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i = character(&c, i, &mut s);
                }
                string(&s, t);
                i += 1;
            }
            '\'' => {
                // A character or a lifetime.
                let mut s = String::new();
                let j = if at(i + 1) == '\\' || at(i + 2) == '\'' { character(&c, i + 1, &mut s) } else { 0 };
                if j != 0 && at(j) == '\'' {
                    string(&s, t);
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            x if x.is_ascii_digit() => {
                let mut s = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    s.push(c[i]);
                    i += 1;
                }
                number(&s, t);
            }
            x if x.is_alphanumeric() || x == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                    if at(i) == '"' || at(i) == '\'' {
                        break;
                    }
                    // Prefixes of literals are single letters, and are met above or are these.
                }
            }
            _ => i += 1,
        }
    }
}

/// Reads one character of a literal, and returns the place after it.
fn character(c: &[char], i: usize, s: &mut String) -> usize {
    if c[i] != '\\' {
        s.push(c[i]);
        return i + 1;
    }
    let hex = |a: usize, b: usize| {
        let digits: String = c[a.min(c.len())..b.min(c.len())].iter().filter(|x| **x != '_').collect();
        u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32)
    };
    match c.get(i + 1) {
        Some('n') => s.push('\n'),
        Some('r') => s.push('\r'),
        Some('t') => s.push('\t'),
        Some('0') => s.push('\0'),
        Some('x') => {
            s.extend(hex(i + 2, i + 4));
            return i + 4;
        }
        Some('u') => {
            let end = (i + 3..c.len()).find(|j| c[*j] == '}').unwrap_or(c.len());
            s.extend(hex(i + 3, end));
            return end + 1;
        }
        Some('\n') => {}
        Some(x) => s.push(*x),
        None => {}
    }
    i + 2
}

fn string(s: &str, t: &mut Tokens) {
    // Not the messages.
    if !s.is_empty() && s.len() <= 40 && s.matches(' ').count() < 2 && !s.contains("{}") {
        t.0.insert(s.to_string());
    }
}
fn number(s: &str, t: &mut Tokens) {
    let s = s.replace('_', "");
    let (digits, radix) = match s.get(..2) {
        Some("0x") => (&s[2..], 16),
        Some("0o") => (&s[2..], 8),
        Some("0b") => (&s[2..], 2),
        _ => (&s[..], 10),
    };
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    if let Ok(n) = u64::from_str_radix(&digits[..end], radix) {
        t.1.insert(n);
    }
}

// Uses by the generators.

/// Whether to use the dictionary here.
pub fn wanted(src: &mut Src) -> bool {
    src.chance(1, 50)
}
fn one<T>(src: &mut Src, of: &'static [Vec<T>; 2]) -> Option<&'static T> {
    let list = &of[usize::from(src.chance(4, 5) && !of[1].is_empty())];
    (!list.is_empty()).then(|| &list[src.idx(list.len())])
}

/// A string, with characters that `ok` does not allow percent-encoded.
pub fn text(src: &mut Src, ok: impl Fn(char) -> bool) -> String {
    let mut out = String::new();
    let Some(s) = one(src, &dict().strings) else { return out };
    let s = match src.weighted(&[6, 1, 1]) {
        0 => s.clone(),
        1 => s.to_ascii_uppercase(),
        _ => s.to_ascii_lowercase(),
    };
    for (i, c) in s.char_indices() {
        let triplet = s.as_bytes()[i..].get(..3).is_some_and(|t| t[0] == b'%' && t[1].is_ascii_hexdigit() && t[2].is_ascii_hexdigit());
        if triplet || (c != '%' && (c.is_ascii_alphanumeric() || ok(c))) {
            out.push(c);
        } else {
            let mut buf = [0; 4];
            for b in c.encode_utf8(&mut buf).bytes() {
                out.push_str(&format!("%{b:02X}"));
            }
        }
    }
    out
}
/// A string as it is.
pub fn raw(src: &mut Src) -> String {
    one(src, &dict().strings).cloned().unwrap_or_default()
}
/// A string of which only what is allowed is left.
pub fn only(src: &mut Src, ok: impl Fn(char) -> bool) -> String {
    raw(src).chars().filter(|c| ok(*c)).collect()
}
/// A number up to `max`, or one next to it.
pub fn number_up_to(src: &mut Src, max: u64) -> Option<u64> {
    let n = one(src, &dict().numbers)?;
    let n = match src.weighted(&[3, 1, 1]) {
        0 => *n,
        1 => n.checked_add(1)?,
        _ => n.checked_sub(1)?,
    };
    (n <= max).then_some(n)
}
/// A character that is a string of the dictionary, or has its code there.
pub fn character_of(src: &mut Src) -> Option<char> {
    if src.bool() {
        let s = one(src, &dict().strings)?;
        s.chars().nth(src.idx(s.chars().count()))
    } else {
        char::from_u32(u32::try_from(number_up_to(src, 0x10_FFFF)?).ok()?)
    }
}
