//! C07: IRI to URI conversion against a one-line encoder.

use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::spec::IriSpec;
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::rfc::{self, Kind};

const SYM: &[&str] = &["a", "/", "?", "#", "\u{E9}", "\u{E000}", "\u{10FFFD}", "%41", ":"];

/// RFC 3987 section 3.1, step 2.
fn encode(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii() { char::from(b).to_string() } else { format!("%{b:02X}") }).collect()
}

macro_rules! kind_check {
    ($name:ident, $kind:expr, $ib:ident, $io:ident, $ub:ident, $uo:ident) => {
        fn $name(s: &str) -> R {
            let exp = encode(s);
            let ascii = s.is_ascii();
            let v = match $ib::new(s) {
                Ok(v) => v,
                Err(_) => return fail("rejected", format!("{s:?} is a valid {}", stringify!($ib))),
            };
            let o = match $io::try_from(s) {
                Ok(v) => v,
                Err(_) => return fail("rejected", format!("{s:?} is a valid {}", stringify!($io))),
            };
            // The result.
            let got = v.encode_to_uri().to_string();
            ensure_eq!(got, exp, "encode_to_uri", "{s:?} as {}", stringify!($ib));
            ensure!(rfc::valid($kind, false, &got), "invalid", "{s:?} as {} gives {got:?}", stringify!($ib));
            ensure!($ub::new(&got).is_ok(), "invalid", "{got:?} rejected as {}", stringify!($ub));
            // Other routes.
            let d: $uo = v.encode_to_uri().to_dedicated_string();
            ensure_eq!(d.as_str(), exp, "to_dedicated_string", "{s:?}");
            ensure_eq!(MappedToUri::from(v).to_string(), exp, "MappedToUri (borrowed)", "{s:?}");
            ensure_eq!(MappedToUri::from(&o).to_string(), exp, "MappedToUri (owned)", "{s:?}");
            ensure_eq!(v.as_uri().map(|u| u.as_str()), ascii.then_some(s), "as_uri", "{s:?}");
            ensure_eq!(o.as_uri().map(|u| u.as_str()), ascii.then_some(s), "as_uri (owned)", "{s:?}");
            for extra in [0usize, 1, 400] {
                // With and without spare capacity.
                let fresh = || {
                    let mut raw = String::with_capacity(s.len() + extra);
                    raw.push_str(s);
                    $io::try_from(raw).ok().unwrap()
                };
                let mut x = fresh();
                x.encode_to_uri_inline();
                ensure_eq!(x.as_str(), exp, "encode_to_uri_inline", "{s:?} (capacity +{extra})");
                x.encode_to_uri_inline();
                ensure_eq!(x.as_str(), exp, "encode_to_uri_inline twice", "{s:?}");
                let mut x = fresh();
                ensure!(x.try_encode_to_uri_inline().is_ok(), "alloc", "{s:?}");
                ensure_eq!(x.as_str(), exp, "try_encode_to_uri_inline", "{s:?}");
                let u: $uo = fresh().encode_into_uri();
                ensure_eq!(u.as_str(), exp, "encode_into_uri", "{s:?}");
                match fresh().try_encode_into_uri() {
                    Ok(u) => ensure_eq!(u.as_str(), exp, "try_encode_into_uri", "{s:?}"),
                    Err(_) => return fail("alloc", s),
                }
            }
            match o.clone().try_into_uri() {
                Ok(u) => {
                    ensure!(ascii, "try_into_uri", "{s:?} taken for a URI");
                    ensure_eq!(u.as_str(), s, "try_into_uri", "{s:?}");
                }
                Err(i) => {
                    ensure!(!ascii, "try_into_uri", "{s:?} not taken for a URI");
                    ensure_eq!(i.as_str(), s, "try_into_uri (given back)", "{s:?}");
                }
            }
            // Back: every URI is an IRI with the same text.
            let i: &$ib = d.as_ref();
            ensure_eq!(i.as_str(), exp, "AsRef of owned", "{s:?}");
            let i: &$ib = AsRef::<$ib>::as_ref(d.as_slice());
            ensure_eq!(i.as_str(), exp, "AsRef of borrowed", "{s:?}");
            ensure_eq!(i.encode_to_uri().to_string(), exp, "encode twice", "{s:?}");
            let i = $io::from(d);
            ensure_eq!(i.as_str(), exp, "From owned URI", "{s:?}");
            Ok(())
        }
    };
}
kind_check!(k_ref, Kind::Reference, IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString);
kind_check!(k_full, Kind::Full, IriStr, IriString, UriStr, UriString);
kind_check!(k_abs, Kind::Absolute, IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString);
kind_check!(k_rel, Kind::Relative, IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString);
kind_check!(k_query, Kind::Query, IriQueryStr, IriQueryString, UriQueryStr, UriQueryString);
kind_check!(k_frag, Kind::Fragment, IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString);

pub const KINDS: &[(Kind, fn(&str) -> R)] = &[
    (Kind::Reference, k_ref),
    (Kind::Full, k_full),
    (Kind::Absolute, k_abs),
    (Kind::Relative, k_rel),
    (Kind::Query, k_query),
    (Kind::Fragment, k_frag),
];

/// Insert runs of characters of a width, so that encoding is cut at every offset.
fn long_runs(src: &mut Src, s: &str) -> String {
    let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let mut out = s.to_string();
    for _ in 0..src.range(1, 2) {
        let i = at[src.idx(at.len())];
        if !out.is_char_boundary(i) {
            continue;
        }
        let n = src.range(1, 30);
        let mixed = src.bool();
        let first = gen::ucschar(src);
        let run: String = (0..n).map(|k| if mixed && k > 0 { gen::ucschar(src) } else { first }).collect();
        out.insert_str(i, &run);
    }
    out
}

/// All characters of a block of 256, each in several places.
fn block(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("characters U+{:04X}..=U+{:04X}", b * 256, b * 256 + 255));
    let mut any = false;
    for c in (b * 256..b * 256 + 256).filter_map(|c| char::from_u32(c as u32)) {
        for s in [format!("s:{c}"), format!("s:a?{c}b"), format!("?{c}{c}")] {
            let (kind, f) = if s.starts_with('s') { KINDS[1] } else { KINDS[0] };
            if rfc::valid(kind, true, &s) {
                any = true;
                f(&s)?;
            } else {
                ensure!(
                    if kind == Kind::Full { IriStr::new(&s).is_err() } else { IriReferenceStr::new(&s).is_err() },
                    "accepted",
                    "{s:?}"
                );
            }
        }
    }
    cx.mark(any, "block of 256 characters");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let s = match src.weighted(&[100, 1, 2000, 600]) {
        0 => gen::over(src, SYM, 6),
        1 => {
            let b = src.below(0x1100);
            return block(b, cx);
        }
        2 => {
            let k = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative]);
            let s = gen::valid_ref(src, true, k);
            if src.chance(1, 3) { long_runs(src, &s) } else { s }
        }
        _ => {
            let s = if src.bool() { gen::query(src, true) } else { gen::fragment(src, true) };
            if src.chance(1, 3) { long_runs(src, &s) } else { s }
        }
    };
    cx.describe(format_args!("{s:?}"));
    let mut n = 0;
    for (k, f) in KINDS {
        if rfc::valid(*k, true, &s) {
            n += 1;
            f(&s)?;
        }
    }
    // No type of the IRI repertoire without a valid text; the pair of specs share the types.
    let _: Option<&IriStr> = RiStr::<IriSpec>::new(&s).ok();
    if n == 0 {
        cx.label("valid for no type (no check)");
        return Ok(());
    }
    let non = s.chars().filter(|c| !c.is_ascii()).count();
    cx.mark(non > 0, "non-ASCII");
    let longest = s.split(|c: char| c.is_ascii()).map(str::len).max().unwrap_or(0);
    cx.mark(longest > 21, "run of non-ASCII over 21 bytes");
    cx.mark(non > 0 && s.contains('%'), "non-ASCII and percent triplets");
    if non == 0 {
        cx.label("ASCII only");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 6 } else { 5 };
    let blocks = (0..0x1100u64).map(|b| vec![100, b]);
    Box::new(blocks.chain(gen::all_over(vec![0], SYM.len() as u64, n)))
}

pub static PROP: Prop = Prop {
    id: "C07",
    quick: 500_000,
    thorough: 4_000_000,
    rule: "Each case is one text converted by every route as each of the six kinds it is valid for (every character of Unicode in blocks; \
           all texts of up to 5 symbols; then generated IRIs, queries and fragments, with runs of up to 30 non-ASCII characters). \
           Non-trivial: it has a non-ASCII character.",
    run,
    enumerate,
    must_reach: &[
        ("non-ASCII", 3000),
        ("run of non-ASCII over 21 bytes", 800),
        ("non-ASCII and percent triplets", 700),
        ("ASCII only", 1000),
    ],
    assumptions: &[],
};
