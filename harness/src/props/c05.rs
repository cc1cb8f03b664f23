//! C05: normalization against the reference normalizer.

use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{self, Mode, Parts};
use crate::rfc::{self, Kind};

const SYM: &[&str] = &["/", "a", ".", "%2e", ":", "%3A"];

pub fn check<S: Spec>(s: &str, iri: bool) -> R {
    let v = match RiStr::<S>::new(s) {
        Ok(v) => v,
        Err(_) => return fail("rejected", format!("{s:?} is a valid IRI")),
    };
    let p = Parts::parse(s);
    for mode in [Mode::Default, Mode::Preserve] {
        let exp = model::normalize(&p, mode, iri).0.to_string();
        let n = match mode {
            Mode::Default => v.normalize(),
            _ => v.normalize_but_preserve_authorityless_relative_path(),
        };
        let got = n.to_string();
        ensure_eq!(got, exp, "normal form", "{s:?} ({mode:?})");
        ensure!(rfc::valid(Kind::Full, iri, &got), "invalid", "{s:?} ({mode:?}) gives the invalid {got:?}");
        let ded = n.to_dedicated_string();
        ensure_eq!(ded.as_str(), got, "to-dedicated", "{s:?} ({mode:?})");
        let into: RiString<S> = RiString::from(&n);
        ensure_eq!(into.as_str(), got, "into", "{s:?} ({mode:?})");
        let again = match mode {
            Mode::Default => ded.normalize().to_string(),
            _ => ded.normalize_but_preserve_authorityless_relative_path().to_string(),
        };
        ensure_eq!(again, got, "idempotence", "normalizing {got:?} again ({mode:?})");
        if p.fragment.is_none() {
            let a = match RiAbsoluteStr::<S>::new(s) {
                Ok(v) => v,
                Err(_) => return fail("rejected", format!("{s:?} is a valid absolute IRI")),
            };
            let n = match mode {
                Mode::Default => a.normalize(),
                _ => a.normalize_but_preserve_authorityless_relative_path(),
            };
            ensure_eq!(n.to_string(), exp, "normal form of absolute", "{s:?} ({mode:?})");
            let ded: RiAbsoluteString<S> = n.to_dedicated_string();
            ensure_eq!(ded.as_str(), exp, "to-dedicated", "absolute {s:?} ({mode:?})");
            ensure_eq!(RiAbsoluteString::<S>::from(&n).as_str(), exp, "into", "absolute {s:?} ({mode:?})");
            ensure_eq!(RiAbsoluteString::<S>::from(n).as_str(), exp, "into", "absolute {s:?} ({mode:?})");
            ensure!(rfc::valid(Kind::Absolute, iri, ded.as_str()), "invalid", "absolute {s:?} gives {ded}");
        }
    }
    Ok(())
}

/// Whole blocks of characters in percent-encoded form.
fn block(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("percent-encoded characters U+{:04X}..=U+{:04X}", b * 256, b * 256 + 255));
    for c in (b * 256..b * 256 + 256).filter_map(|c| char::from_u32(c as u32)) {
        let mut buf = [0; 4];
        let enc: String = c.encode_utf8(&mut buf).bytes().map(|b| format!("%{b:02x}")).collect();
        for iri in [false, true] {
            let s = format!("s:{enc}");
            let exp = model::pct_case(&enc, iri);
            let got = if iri {
                RiStr::<IriSpec>::new(&s).unwrap().normalize().to_string()
            } else {
                RiStr::<UriSpec>::new(&s).unwrap().normalize().to_string()
            };
            // A lone `.` disappears.
            let exp = if exp == "." { String::new() } else { exp };
            ensure_eq!(got, format!("s:{exp}"), "character", "{s:?} (iri: {iri})");
            let as_host = format!("s://{enc}");
            let e = model::normalize(&Parts::parse(&as_host), Mode::Default, iri).0.to_string();
            let got = if iri {
                RiStr::<IriSpec>::new(&as_host).unwrap().normalize().to_string()
            } else {
                RiStr::<UriSpec>::new(&as_host).unwrap().normalize().to_string()
            };
            ensure_eq!(got, e, "character in host", "{as_host:?} (iri: {iri})");
        }
    }
    cx.mark(true, "block of 256 characters");
    Ok(())
}

pub fn generate(src: &mut Src) -> (String, bool) {
    let iri = src.bool();
    let s = match src.weighted(&[8, 3, 4]) {
        0 => gen::valid_ref(src, iri, Kind::Full),
        1 => {
            let p = gen::dotty_path(src);
            format!("{}:{}{}", gen::scheme(src), if src.chance(1, 3) { "//h" } else { "" }, p)
        }
        _ => {
            let mut s = format!("{}://{}", gen::scheme(src), gen::authority(src, iri));
            if src.bool() {
                s.push('/');
            }
            s
        }
    };
    (s, iri)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (s, iri) = match src.weighted(&[100, 1, 2000]) {
        0 => {
            let head = ["s:", "s://h", "S://H:", "s:///"][src.idx(4)];
            (format!("{head}{}", gen::over(src, SYM, 6)), false)
        }
        1 => {
            let b = src.below(0x1100);
            return block(b, cx);
        }
        _ => generate(src),
    };
    cx.describe(format_args!("{s:?}"));
    if !rfc::valid(Kind::Full, iri, &s) {
        cx.label("not an IRI (no check)");
        return Ok(());
    }
    check::<IriSpec>(&s, true)?;
    if !iri {
        check::<UriSpec>(&s, false)?;
    }
    let p = Parts::parse(&s);
    let (n, failed) = model::normalize(&p, Mode::Default, iri);
    cx.mark(n.path != p.path, "path changes");
    cx.mark(n.authority != p.authority, "authority changes");
    cx.mark(n.query != p.query || n.fragment != p.fragment, "query or fragment changes");
    cx.mark(failed, "guarded by /.");
    if n == p {
        cx.label("already normalized");
    }
    if n.to_string().chars().any(|c| !c.is_ascii()) && s.is_ascii() {
        cx.label("non-ASCII decoded");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 6 } else { 5 };
    let paths = (0..4u64).flat_map(move |h| gen::all_over(vec![0, h], SYM.len() as u64, n));
    let blocks = (0..0x1100u64).map(|b| vec![100, b]);
    Box::new(blocks.chain(paths))
}

pub static PROP: Prop = Prop {
    id: "C05",
    quick: 600_000,
    thorough: 8_000_000,
    rule: "Each case is one IRI/URI normalized in both variants (all percent-encoded characters in blocks; all paths of up to 5 symbols \
           over {/, a, ., %2e, :, %3A} after 4 prefixes; then generated ones). Non-trivial: normalization changes something, \
           or the result needs the `/.` guard, or it is a block of characters.",
    run,
    enumerate,
    must_reach: &[
        ("path changes", 2000),
        ("authority changes", 1000),
        ("query or fragment changes", 310),
        ("guarded by /.", 50),
        ("already normalized", 300),
        ("non-ASCII decoded", 50),
    ],
    assumptions: &[],
};
