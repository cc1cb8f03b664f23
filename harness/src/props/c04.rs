//! C04: reference resolution against the model of RFC 3986 section 5.2.

use iri_string::format::ToDedicatedString;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{self, Mode, Parts};
use crate::rfc::{self, Kind};

/// Symbols of the enumerated paths.
const PSYM: &[&str] = &["/", "a", ".", "%2E"];

fn one<S: Spec>(base: &RiAbsoluteStr<S>, resolver: &FixedBaseResolver<'_, S>, r: &str, iri: bool) -> Result<String, Fail> {
    let rr = match RiReferenceStr::<S>::new(r) {
        Ok(x) => x,
        Err(_) => return fail("rejected", format!("{r:?} is a valid reference")),
    };
    let (bp, rp) = (Parts::parse(base.as_str()), Parts::parse(r));
    let mut plain = String::new();
    for mode in [Mode::None, Mode::Default, Mode::Preserve] {
        let (exp, _) = model::resolve(&bp, &rp, mode, iri);
        let exp = exp.to_string();
        let mk = || {
            let mut n = rr.resolve_against(base);
            match mode {
                Mode::None => {}
                Mode::Default => n.enable_normalization(),
                Mode::Preserve => n.enable_normalization_preserving_authorityless_relative_path(),
            }
            n
        };
        let got = mk().to_string();
        ensure_eq!(got, exp, "target", "{:?} against {:?} ({mode:?})", r, base.as_str());
        ensure!(rfc::valid(Kind::Full, iri, &got), "invalid", "{r:?} against {:?} ({mode:?}) gives the invalid {got:?}", base.as_str());
        ensure_eq!(mk().to_dedicated_string().as_str(), got, "to-dedicated", "{r:?} ({mode:?})");
        let s: RiString<S> = mk().into();
        ensure_eq!(s.as_str(), got, "into", "{r:?} ({mode:?})");
        let n = resolver.resolve(rr);
        let n = match mode {
            Mode::None => n,
            Mode::Default => n.and_normalize(),
            Mode::Preserve => n.and_normalize_but_preserve_authorityless_relative_path(),
        };
        ensure_eq!(n.to_string(), got, "resolver", "{r:?} against {:?} by a resolver ({mode:?})", base.as_str());
        if let Ok(rel) = rr.to_relative_iri() {
            let n = rel.resolve_against(base);
            let n = match mode {
                Mode::None => n,
                Mode::Default => n.and_normalize(),
                Mode::Preserve => n.and_normalize_but_preserve_authorityless_relative_path(),
            };
            ensure_eq!(n.to_string(), got, "relative", "{r:?} as relative ({mode:?})");
        }
        if mode == Mode::None {
            plain = got;
        }
    }
    Ok(plain)
}

fn check<S: Spec>(base: &str, refs: &[String], iri: bool) -> Result<String, Fail> {
    let b = match RiAbsoluteStr::<S>::new(base) {
        Ok(b) => b,
        Err(_) => return fail("rejected", format!("{base:?} is a valid absolute IRI")),
    };
    let resolver = FixedBaseResolver::new(b);
    let mut last = String::new();
    for r in refs {
        last = one::<S>(b, &resolver, r, iri)?;
    }
    let bp = Parts::parse(base);
    ensure_eq!(resolver.base().as_str(), base, "resolver-base", "base()");
    ensure_eq!(Some(resolver.scheme_str()), bp.scheme.as_deref(), "resolver-base", "scheme of the resolver");
    ensure_eq!(resolver.authority_str(), bp.authority.as_deref(), "resolver-base", "authority of the resolver");
    ensure_eq!(resolver.path_str(), bp.path, "resolver-base", "path of the resolver");
    ensure_eq!(resolver.query_str(), bp.query.as_deref(), "resolver-base", "query of the resolver");
    ensure_eq!(resolver.query().map(|q| q.as_str()), bp.query.as_deref(), "resolver-base", "query of the resolver");
    Ok(last)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let mut chain = false;
    let (mut base, refs, iri) = match src.weighted(&[1, 12, 6]) {
        0 => {
            let auth = ["", "//h"][src.idx(2)];
            let b = gen::over(src, PSYM, 5);
            let base = format!("s:{auth}{b}");
            let kind = src.idx(3);
            let head = ["", "S:", "//g"][kind];
            let p = gen::over(src, PSYM, 6);
            let tail = ["", "?q", "#f"][src.idx(3)];
            (base, vec![format!("{head}{p}{tail}")], false)
        }
        m => {
            let iri = src.bool();
            let base = gen::valid_ref(src, iri, Kind::Absolute);
            let n = src.range(1, 4);
            let refs = (0..n)
                .map(|_| {
                    if m == 1 {
                        gen::valid_ref(src, iri, Kind::Reference)
                    } else {
                        let p = if src.bool() { gen::dotty_path(src) } else { gen::path(src, iri) };
                        if src.chance(1, 6) {
                            format!("{p}?{}", gen::query(src, iri))
                        } else {
                            p
                        }
                    }
                })
                .filter(|r| rfc::valid(Kind::Reference, iri, r))
                .collect();
            chain = src.chance(1, 3);
            (base, refs, iri)
        }
    };
    cx.describe(format_args!("base {base:?} refs {refs:?}"));
    if !rfc::valid(Kind::Absolute, iri, &base) || refs.iter().any(|r: &String| !rfc::valid(Kind::Reference, iri, r)) {
        cx.label("not a valid pair (no check)");
        return Ok(());
    }
    for round in 0..3 {
        let mut last = check::<IriSpec>(&base, &refs, true)?;
        if !iri {
            last = check::<UriSpec>(&base, &refs, false)?;
        }
        let bp = Parts::parse(&base);
        for r in &refs {
            let rp = Parts::parse(r);
            let (t, remove) = model::target(&bp, &rp);
            let (e, failed) = model::finish(&t, remove, Mode::None, iri);
            cx.mark(e.path != t.path, "dot segments removed");
            cx.mark(rp.scheme.is_none() && rp.authority.is_none() && !rp.path.is_empty() && !rp.path.starts_with('/'), "paths merged");
            cx.mark(failed, "guarded by /.");
            if !remove {
                cx.label("path inherited");
            }
            if t.path.matches('/').count() > 9 {
                cx.label("more than 9 segments");
            }
        }
        if !chain || round == 2 || refs.is_empty() {
            break;
        }
        // The result, without its fragment, is the next base.
        cx.label("chained bases");
        let mut next = Parts::parse(&last);
        next.fragment = None;
        base = next.to_string();
        if !rfc::valid(Kind::Absolute, iri, &base) {
            break;
        }
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let k = PSYM.len() as u64;
    let n = if thorough { 5 } else { 4 };
    let pairs = (0..2u64).flat_map(move |auth| {
        gen::all_over(vec![0, auth], k, n).flat_map(move |b| {
            let mut b = b;
            b.push(0);
            gen::all_over(b, k, n)
        })
    });
    let m = if thorough { 6 } else { 5 };
    // With its own scheme or authority the reference ignores the base path.
    let own = (0..2u64).flat_map(move |auth| (1..3u64).flat_map(move |kind| gen::all_over(vec![0, auth, 2, 0, 1, kind], k, m)));
    Box::new(pairs.chain(own))
}

pub static PROP: Prop = Prop {
    id: "C04",
    quick: 250_000,
    thorough: 6_000_000,
    rule: "Each case is a base and one to four references resolved against one resolver, in three modes (all pairs of paths of up to 4 \
           symbols over {/, a, ., %2E} with and without authority; then generated ones, with results chained as new bases). \
           Non-trivial: paths were merged, dot segments were removed, or the result needs the `/.` guard.",
    run,
    enumerate,
    must_reach: &[
        ("dot segments removed", 2000),
        ("paths merged", 2000),
        ("guarded by /.", 100),
        ("path inherited", 250),
        ("more than 9 segments", 500),
        ("chained bases", 500),
    ],
    assumptions: &[],
};
