//! C01: the string types accept exactly the strings of the grammar.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::rfc::{self, Kind};
use crate::gen;

const ALPHABET: &[&str] = &["a", ":", "/", "?", "#", "@", "[", "%", "%41", "\u{E9}", ".", "\u{E000}", "]", " "];

/// All constructors of one kind, against the expected verdict.
macro_rules! kind_check {
    ($name:ident, $str:ident, $string:ident) => {
        fn $name<S: Spec>(s: &str, ok: bool) -> R
        where
            S: 'static,
        {
            let what = concat!(stringify!($str));
            let r = $str::<S>::new(s);
            ensure_eq!(r.is_ok(), ok, "accepts", "{what}::new({s:?}).is_ok()");
            ensure_eq!(<&$str<S>>::try_from(s).is_ok(), ok, "accepts-tryfrom", "{what} TryFrom<&str>({s:?})");
            ensure_eq!(
                <&$str<S>>::try_from(s.as_bytes()).is_ok(),
                ok,
                "accepts-bytes",
                "{what} TryFrom<&[u8]>({s:?})"
            );
            ensure_eq!(s.parse::<$string<S>>().is_ok(), ok, "accepts-fromstr", "{what} FromStr({s:?})");
            ensure_eq!($string::<S>::try_from(s).is_ok(), ok, "accepts-owned", "{what} owned TryFrom<&str>({s:?})");
            ensure_eq!(
                $string::<S>::try_from(s.as_bytes()).is_ok(),
                ok,
                "accepts-owned-bytes",
                "{what} owned TryFrom<&[u8]>({s:?})"
            );
            match $string::<S>::try_from(s.to_string()) {
                Ok(v) => {
                    ensure!(ok, "accepts-owned-string", "{what} owned TryFrom<String>({s:?}) accepts");
                    ensure_eq!(v.as_str(), s, "text", "{what} owned as_str");
                    ensure_eq!(v.as_slice().as_str(), s, "text", "{what} as_slice");
                    ensure_eq!(v.to_string(), s, "text", "{what} owned Display");
                    ensure_eq!(v.len(), s.len(), "text", "{what} owned len");
                    ensure_eq!(v.is_empty(), s.is_empty(), "text", "{what} owned is_empty");
                    let raw: String = v.into();
                    ensure_eq!(raw, s, "text", "{what} into String");
                    // SAFETY: just accepted.
                    let (b, o) = unsafe { ($str::<S>::new_unchecked(s), $string::<S>::new_unchecked(raw)) };
                    ensure!(std::ptr::eq(b.as_str(), s) && o.as_str() == s, "text", "{what}::new_unchecked({s:?})");
                    ensure!(o.capacity() >= s.len(), "capacity", "{what}::new_unchecked({s:?})");
                }
                Err(e) => {
                    ensure!(!ok, "accepts-owned-string", "{what} owned TryFrom<String>({s:?}) rejects");
                    ensure_eq!(Some(e.validation_error()), r.err(), "same error", "{what} owned TryFrom<String>({s:?})");
                    ensure_eq!(e.to_string(), e.validation_error().to_string(), "same error", "{what} owned TryFrom<String>({s:?})");
                    ensure_eq!(e.clone().into_source(), s, "source", "{what} CreationError::clone");
                    ensure_eq!(e.into_source(), s, "source", "{what} CreationError::into_source");
                }
            }
            if let Ok(v) = r {
                ensure_eq!(v.as_str(), s, "text", "{what} as_str");
                ensure!(
                    std::ptr::eq(v.as_str().as_ptr(), s.as_ptr()),
                    "text",
                    "{what}::new does not borrow its argument"
                );
                ensure_eq!(v.to_string(), s, "text", "{what} Display");
                ensure!(!std::format!("{v:?}").is_empty(), "debug", "{what} Debug is empty");
                ensure_eq!(v.len(), s.len(), "text", "{what} len");
                ensure_eq!(v.is_empty(), s.is_empty(), "text", "{what} is_empty");
                let owned: $string<S> = v.to_owned();
                ensure_eq!(owned.as_str(), s, "text", "{what} to_owned");
            }
            // The accepted text is still judged alike when it is not valid UTF-8 as a whole.
            let mut b = s.as_bytes().to_vec();
            b.push(0xFF);
            ensure!(<&$str<S>>::try_from(&b[..]).is_err(), "accepts-non-utf8", "{what} accepts {b:?}");
            ensure!($string::<S>::try_from(&b[..]).is_err(), "accepts-non-utf8", "{what} owned accepts {b:?}");
            Ok(())
        }
    };
}
kind_check!(reference, RiReferenceStr, RiReferenceString);
kind_check!(full, RiStr, RiString);
kind_check!(absolute, RiAbsoluteStr, RiAbsoluteString);
kind_check!(relative, RiRelativeStr, RiRelativeString);
kind_check!(query, RiQueryStr, RiQueryString);
kind_check!(fragment, RiFragmentStr, RiFragmentString);

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let s = match src.weighted(&[1, 10, 5, 3, 3, 3]) {
        0 => gen::over(src, ALPHABET, 6),
        m @ 1..=4 => {
            let iri = src.bool();
            let kind = match m {
                1 => Kind::Reference,
                2 => Kind::Full,
                3 => Kind::Absolute,
                _ => Kind::Relative,
            };
            gen::maybe(src, iri, kind)
        }
        _ => {
            let s = if src.bool() { gen::query(src, true) } else { gen::fragment(src, true) };
            if src.bool() {
                gen::mutate(src, &s, 2)
            } else {
                s
            }
        }
    };
    cx.describe(format_args!("{s:?}"));
    let mut accepted = 0;
    for iri in [false, true] {
        for kind in [Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative, Kind::Query, Kind::Fragment] {
            let ok = rfc::valid(kind, iri, &s);
            assert_eq!(ok, rfc::compact::valid(kind, iri, &s), "harness: the recognizers of {kind:?} disagree on {s:?}");
            accepted += u32::from(ok);
            macro_rules! go {
                ($f:ident) => {
                    if iri {
                        $f::<IriSpec>(&s, ok)?
                    } else {
                        $f::<UriSpec>(&s, ok)?
                    }
                };
            }
            match kind {
                Kind::Reference => go!(reference),
                Kind::Full => go!(full),
                Kind::Absolute => go!(absolute),
                Kind::Relative => go!(relative),
                Kind::Query => go!(query),
                _ => go!(fragment),
            }
            match (kind, ok) {
                (Kind::Full, true) => cx.label("IRI or URI"),
                (Kind::Relative, true) => cx.label("relative reference"),
                (Kind::Absolute, true) => cx.label("absolute"),
                _ => {}
            }
        }
    }
    cx.mark(s.len() >= 3 && accepted > 0 && accepted < 12, "accepted by some kinds, rejected by others");
    if accepted == 0 {
        cx.label("rejected by all kinds");
    }
    cx.mark(!s.is_ascii() && accepted > 0, "non-ASCII accepted");
    cx.mark(s.len() > 1000, "longer than 1000 bytes");
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(gen::all_over(vec![0], ALPHABET.len() as u64, if thorough { 6 } else { 4 }))
}

pub static PROP: Prop = Prop {
    id: "C01",
    quick: 800_000,
    thorough: 12_000_000,
    rule: "Each case is one string (all strings of up to 4 symbols, 6 at the thorough tier, over a 14-symbol alphabet; then \
           grammar-derived strings, strings with 1 to 3 edits, and unstructured strings) judged for the 6 kinds in both \
           character repertoires by an ABNF interpreter running the text of RFC 3986/3987. Non-trivial: accepted by some \
           kinds and rejected by others with at least 3 bytes, or accepted with a non-ASCII character.",
    run,
    enumerate,
    must_reach: &[
        ("accepted by some kinds, rejected by others", 3000),
        ("non-ASCII accepted", 500),
        ("IRI or URI", 1500),
        ("relative reference", 500),
        ("absolute", 500),
        ("rejected by all kinds", 500),
    ],
    assumptions: &["strings of more than 319 characters are judged by a linear recognizer, which is compared with the ABNF interpreter on every shorter string"],
};
