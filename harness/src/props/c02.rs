//! C02: the component validators accept exactly the strings of the grammar.

use iri_string::spec::{IriSpec, UriSpec};
use iri_string::validate;

use crate::engine::*;
use crate::rfc::{self, Kind};
use crate::gen;

/// Address characters: enumerated inside brackets.
const IP6: &[&str] = &["1", ":", "::", "1.2.3.4", "f", "12345"];
const GENERAL: &[&str] = &["a", "1", ":", "/", "?", "#", "@", "[", "]", "%4A", "%", ".", "\u{E9}", "\u{E000}", "+", "v1.a", "::1"];
const OCTETS: &[&str] = &["0", "1", "9", "."];

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let s = match src.weighted(&[1, 1, 1, 1, 8, 2, 3, 3, 3, 5, 1]) {
        0 => gen::over(src, GENERAL, 5),
        1 => format!("[{}]", gen::over(src, IP6, 9)),
        2 => format!("1.{}.1", gen::over(src, OCTETS, 6)),
        3 => {
            // All numbers as one octet of an address.
            let n = src.below(1100);
            let i = src.idx(4);
            let mut v = vec!["1".to_string(); 4];
            v[i] = n.to_string();
            let s = v.join(".");
            match src.idx(3) {
                0 => s,
                1 => format!("[::{s}]"),
                _ => format!("[1:2:3:4:5:6:{s}]"),
            }
        }
        4 => {
            let iri = src.bool();
            gen::host_any(src, iri)
        }
        5 => {
            let s = gen::scheme(src);
            if src.bool() {
                gen::mutate(src, &s, 2)
            } else {
                s
            }
        }
        6 => {
            let iri = src.bool();
            let s = gen::authority(src, iri);
            if src.bool() {
                gen::mutate(src, &s, 2)
            } else {
                s
            }
        }
        7 => {
            let iri = src.bool();
            let s = gen::path(src, iri);
            if src.bool() {
                gen::mutate(src, &s, 2)
            } else {
                s
            }
        }
        8 => {
            let iri = src.bool();
            let s = match src.idx(4) {
                0 => gen::userinfo(src, iri),
                1 => gen::query(src, iri),
                2 => gen::port(src),
                _ => gen::segment(src, iri),
            };
            if src.bool() {
                gen::mutate(src, &s, 2)
            } else {
                s
            }
        }
        9 => gen::soup(src, 10),
        _ => {
            // One character of the repertoire on its own.
            let c = src.below(0x11_0000) as u32;
            char::from_u32(c).unwrap_or('\u{FFFD}').to_string()
        }
    };
    cx.describe(format_args!("{s:?}"));
    let mut accepted = 0;
    let mut total = 0;
    macro_rules! ck {
        ($kind:expr, $iri:expr, $call:expr, $name:expr) => {{
            let ok = rfc::valid($kind, $iri, &s);
            assert_eq!(ok, rfc::compact::valid($kind, $iri, &s), "harness: the recognizers of {:?} disagree on {s:?}", $kind);
            total += 1;
            accepted += u32::from(ok);
            ensure_eq!($call.is_ok(), ok, $name, "validate::{}({s:?}) iri={}", $name, $iri);
        }};
    }
    macro_rules! both {
        ($kind:expr, $f:ident) => {{
            ck!($kind, true, validate::$f::<IriSpec>(&s), stringify!($f));
            ck!($kind, false, validate::$f::<UriSpec>(&s), stringify!($f));
        }};
    }
    ck!(Kind::Scheme, true, validate::scheme(&s), "scheme");
    ck!(Kind::Port, true, validate::port(&s), "port");
    both!(Kind::Authority, authority);
    both!(Kind::UserInfo, userinfo);
    both!(Kind::Host, host);
    // "If host matches the rule for IPv4address, then it should be considered an
    // IPv4 address literal and not a reg-name" (RFC 3986 section 3.2.2).
    for iri in [true, false] {
        let ok = rfc::valid(Kind::RegName, iri, &s) && !rfc::valid(Kind::Ipv4, iri, &s);
        let got = if iri { validate::reg_name::<IriSpec>(&s) } else { validate::reg_name::<UriSpec>(&s) };
        ensure_eq!(got.is_ok(), ok, "reg_name", "validate::reg_name({s:?}) iri={iri}");
    }
    both!(Kind::Path, path);
    both!(Kind::Segment, path_segment);
    both!(Kind::Query, query);
    both!(Kind::Fragment, fragment);
    both!(Kind::Full, iri);
    both!(Kind::Reference, iri_reference);
    both!(Kind::Absolute, absolute_iri);
    both!(Kind::Relative, relative_ref);
    cx.mark(accepted > 0 && accepted < total && s.len() > 1, "accepted by some validators, rejected by others");
    if s.starts_with('[') {
        let ok = rfc::valid(Kind::Host, true, &s);
        cx.label(if ok { "IP literal" } else { "not quite an IP literal" });
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let g = gen::all_over(vec![0], GENERAL.len() as u64, if thorough { 5 } else { 4 });
    let i = gen::all_over(vec![1], IP6.len() as u64, if thorough { 9 } else { 6 });
    let o = gen::all_over(vec![2], OCTETS.len() as u64, 6);
    let n = (0..1100u64).flat_map(|n| (0..4u64).flat_map(move |p| (0..3u64).map(move |m| vec![3, n, p, m])));
    // Every character on its own; the quick tier takes one in 7 and those next to an edge.
    let step = if thorough { 1 } else { 7 };
    let c = (0..0x11_0000u64).filter(move |c| c % step == 0 || gen::near_edge(*c)).map(|c| vec![28, c]);
    Box::new(g.chain(i).chain(o).chain(n).chain(c))
}

pub static PROP: Prop = Prop {
    id: "C02",
    quick: 900_000,
    thorough: 12_000_000,
    rule: "Each case is one string judged by all 14 public validators against the ABNF of RFC 3986/3987, in both character \
           repertoires. Enumerated: all strings of up to 4 symbols (5 thorough) over 17 symbols, all bracketed strings of up \
           to 6 (9) address symbols, all numbers 0-1099 in every octet position, and single characters of the whole \
           Unicode range (every one at the thorough tier). Non-trivial: more than 1 byte, accepted by some validators and \
           rejected by others.",
    run,
    enumerate,
    must_reach: &[
        ("accepted by some validators, rejected by others", 4000),
        ("IP literal", 300),
        ("not quite an IP literal", 300),
    ],
    assumptions: &[],
};
