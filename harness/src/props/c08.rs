//! C08: percent-encoding per context.

use std::fmt;

use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::rfc::{self, Kind};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ctx {
    RegName,
    User,
    Password,
    Segment,
    Path,
    Query,
    Fragment,
    Unreserve,
    Characters,
}
use Ctx::*;
const ALL: [Ctx; 9] = [RegName, User, Password, Segment, Path, Query, Fragment, Unreserve, Characters];

/// Characters that RFC 3986 section 3 / RFC 3987 section 2.2 let stand for themselves.
fn stays(ctx: Ctx, iri: bool, c: char) -> bool {
    let unreserved = c.is_ascii_alphanumeric() || "-._~".contains(c) || (iri && rfc::is_ucschar(c));
    let sub = "!$&'()*+,;=".contains(c);
    let private = iri && rfc::is_iprivate(c);
    match ctx {
        RegName | User | Password => unreserved || sub,
        Segment => unreserved || sub || ":@".contains(c),
        Path => unreserved || sub || ":@/".contains(c),
        Query => unreserved || sub || ":@/?".contains(c) || private,
        Fragment => unreserved || sub || ":@/?".contains(c),
        Unreserve => unreserved,
        Characters => unreserved || sub || ":/?#[]@".contains(c) || private,
    }
}

fn encode(ctx: Ctx, iri: bool, s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if stays(ctx, iri, c) {
            out.push(c);
        } else {
            let mut buf = [0; 4];
            for b in c.encode_utf8(&mut buf).bytes() {
                out.push_str(&format!("%{b:02X}"));
            }
        }
    }
    out
}

fn crate_encode<T: fmt::Display + Copy, S: Spec>(ctx: Ctx, t: T) -> String {
    let p = match ctx {
        RegName => PercentEncoded::<_, S>::from_reg_name(t),
        User => PercentEncoded::<_, S>::from_user(t),
        Password => PercentEncoded::<_, S>::from_password(t),
        Segment => PercentEncoded::<_, S>::from_path_segment(t),
        Path => PercentEncoded::<_, S>::from_path(t),
        Query => PercentEncoded::<_, S>::from_query(t),
        Fragment => PercentEncoded::<_, S>::from_fragment(t),
        Unreserve => PercentEncoded::<_, S>::unreserve(t),
        Characters => PercentEncoded::<_, S>::characters(t),
    };
    p.to_string()
}

/// Displays a text in pieces, some of them single characters.
#[derive(Clone, Copy)]
pub struct Pieces<'a>(pub &'a str, pub u64);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write as _;
        let mut h = self.1;
        let mut rest = self.0;
        while !rest.is_empty() {
            h = mix(h);
            let n = 1 + (h % 4) as usize;
            let end = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
            let (head, tail) = rest.split_at(end);
            if n == 1 && h & 64 == 0 {
                f.write_char(head.chars().next().unwrap())?;
            } else if h & 128 == 0 {
                f.write_str(head)?;
            } else {
                write!(f, "{head}")?;
            }
            rest = tail;
        }
        Ok(())
    }
}

fn valid_result(ctx: Ctx, iri: bool, s: &str) -> bool {
    match ctx {
        // Any registered name by the grammar; one that looks like an IPv4 address is one.
        RegName => rfc::valid(Kind::RegName, iri, s),
        User | Password => rfc::valid(Kind::User, iri, s),
        Segment => rfc::valid(Kind::Segment, iri, s),
        // Prefixed by a slash (the empty first segment is a matter of the place).
        Path => rfc::valid(Kind::PathAbEmpty, iri, &format!("/{s}")),
        Query => rfc::valid(Kind::Query, iri, s),
        Fragment | Unreserve => rfc::valid(Kind::Fragment, iri, s),
        // No guarantee of its place.
        Characters => true,
    }
}

fn check<S: Spec>(s: &str, seed: u64, iri: bool) -> R {
    for ctx in ALL {
        let exp = encode(ctx, iri, s);
        let got = crate_encode::<_, S>(ctx, s);
        ensure_eq!(got, exp, "encoding", "{s:?} as {ctx:?} (iri: {iri})");
        let pieces = crate_encode::<_, S>(ctx, Pieces(s, seed));
        ensure_eq!(pieces, exp, "encoding of pieces", "{s:?} as {ctx:?} (iri: {iri})");
        let back = decode_whatwg_bytes(got.as_bytes()).into_string();
        ensure_eq!(back.as_deref().ok(), Some(s), "round trip", "{got:?} as {ctx:?}");
        ensure!(valid_result(ctx, iri, &got), "invalid", "{got:?} as {ctx:?} (iri: {iri})");
    }
    // In place: a reference made of the encoded parts parses back into them.
    let (u, p) = (crate_encode::<_, S>(User, s), crate_encode::<_, S>(Password, s));
    let (h, q) = (crate_encode::<_, S>(RegName, s), crate_encode::<_, S>(Query, s));
    let (pa, fr) = (crate_encode::<_, S>(Path, s), crate_encode::<_, S>(Fragment, s));
    let whole = format!("s://{u}:{p}@{h}/{pa}?{q}#{fr}");
    let v = match RiStr::<S>::new(&whole) {
        Ok(v) => v,
        Err(_) => return fail("composition", format!("{whole:?} rejected (iri: {iri})")),
    };
    let a = v.authority_components().unwrap();
    ensure_eq!(a.userinfo(), Some(format!("{u}:{p}").as_str()), "userinfo", "{whole:?}");
    ensure_eq!(a.host(), h, "host", "{whole:?}");
    ensure_eq!(v.path_str(), format!("/{pa}"), "path", "{whole:?}");
    ensure_eq!(v.query_str(), Some(q.as_str()), "query", "{whole:?}");
    ensure_eq!(v.fragment_str(), Some(fr.as_str()), "fragment", "{whole:?}");
    Ok(())
}

fn block(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("characters U+{:04X}..=U+{:04X}", b * 256, b * 256 + 255));
    for c in (b * 256..b * 256 + 256).filter_map(|c| char::from_u32(c as u32)) {
        for ctx in ALL {
            for iri in [false, true] {
                let s = c.to_string();
                let exp = encode(ctx, iri, &s);
                let got = if iri { crate_encode::<_, IriSpec>(ctx, c) } else { crate_encode::<_, UriSpec>(ctx, c) };
                ensure_eq!(got, exp, "character", "{c:?} as {ctx:?} (iri: {iri})");
                let got = if iri {
                    crate_encode::<_, IriSpec>(ctx, s.as_str())
                } else {
                    crate_encode::<_, UriSpec>(ctx, s.as_str())
                };
                ensure_eq!(got, exp, "character as string", "{c:?} as {ctx:?} (iri: {iri})");
            }
        }
    }
    cx.mark(true, "block of 256 characters");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (s, seed) = match src.weighted(&[1, 3000]) {
        0 => {
            let b = src.below(0x1100);
            return block(b, cx);
        }
        _ => {
            let seed = src.below(1 << 40);
            let s = match src.weighted(&[5, 3, 3]) {
                0 => gen::soup(src, 24),
                1 => {
                    let iri = src.bool();
                    gen::maybe(src, iri, Kind::Reference)
                }
                _ => {
                    let mut s = gen::text(src, true, ":@/?#[]% \"", 12, true);
                    if src.bool() {
                        s = gen::mutate(src, &s, 2);
                    }
                    s
                }
            };
            (s.chars().take(60).collect::<String>(), seed)
        }
    };
    cx.describe(format_args!("{s:?} in pieces of seed {seed}"));
    check::<IriSpec>(&s, seed, true)?;
    check::<UriSpec>(&s, seed, false)?;
    let n = ALL.iter().filter(|c| encode(**c, true, &s) != s).count();
    cx.mark(n > 0, "something is encoded");
    cx.mark(n > 0 && n < 9, "encoded in some contexts only");
    cx.mark(s.contains('%'), "percent in the input");
    cx.mark(s.chars().any(rfc::is_iprivate), "private characters");
    Ok(())
}

fn enumerate(_: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new((0..0x1100u64).map(|b| vec![0, b]))
}

pub static PROP: Prop = Prop {
    id: "C08",
    quick: 500_000,
    thorough: 3_000_000,
    rule: "Each case is one text encoded in all 9 contexts and both repertoires, whole and displayed in random pieces (every Unicode \
           scalar value on its own, in blocks; then generated texts), decoded back, and composed into one IRI. \
           Non-trivial: some context encodes something.",
    run,
    enumerate,
    must_reach: &[
        ("something is encoded", 2260),
        ("encoded in some contexts only", 500),
        ("percent in the input", 1210),
        ("private characters", 270),
    ],
    assumptions: &["the sets of characters per context are transcribed by hand from RFC 3986 and RFC 3987"],
};
