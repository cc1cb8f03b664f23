//! C06: normalizedness predicates against the operation.

use iri_string::build::Builder;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{self, Mode, Parts};
use crate::props::c05;
use crate::rfc::{self, Kind};

const SYM: &[&str] = &["/", "a", ".", "%2e", "A", ":"];

fn check<S: Spec>(s: &str, iri: bool) -> R {
    let v = match RiStr::<S>::new(s) {
        Ok(v) => v,
        Err(_) => return fail("rejected", format!("{s:?} is a valid IRI")),
    };
    let p = Parts::parse(s);
    // Against the operation itself.
    let norm = v.normalize();
    let is = norm.to_string() == s;
    let pres = v.normalize_but_preserve_authorityless_relative_path().to_string() == s;
    // The plain result of RFC 3986 has no serialization.
    let fails = model::normalize(&p, Mode::Default, iri).1;
    ensure_eq!(v.is_normalized(), is, "is_normalized", "{s:?}");
    ensure_eq!(v.is_normalized_but_authorityless_relative_path_preserved(), pres, "is_normalized (preserved)", "{s:?}");
    ensure_eq!(v.ensure_rfc3986_normalizable().is_err(), fails, "normalizable", "{s:?}");
    ensure_eq!(norm.ensure_rfc3986_normalizable().is_err(), fails, "normalizable (operation)", "{s:?}");
    ensure_eq!(v.is_normalized_rfc3986(), is && !fails, "is_normalized_rfc3986", "{s:?}");
    // Against the model.
    ensure_eq!(is, model::normalize(&p, Mode::Default, iri).0 == p, "is_normalized (model)", "{s:?}");
    ensure_eq!(pres, model::normalize(&p, Mode::Preserve, iri).0 == p, "is_normalized (preserved, model)", "{s:?}");
    if p.fragment.is_none() {
        let a = RiAbsoluteStr::<S>::new(s).map_err(|_| Fail { kind: "rejected".into(), detail: s.into() })?;
        ensure_eq!(a.is_normalized(), is, "is_normalized of absolute", "{s:?}");
        ensure_eq!(a.is_normalized_but_authorityless_relative_path_preserved(), pres, "is_normalized (preserved) of absolute", "{s:?}");
        ensure_eq!(a.ensure_rfc3986_normalizable().is_err(), fails, "normalizable (absolute)", "{s:?}");
        ensure_eq!(a.normalize().ensure_rfc3986_normalizable().is_err(), fails, "normalizable (operation, absolute)", "{s:?}");
        ensure_eq!(a.is_normalized_rfc3986(), is && !fails, "is_normalized_rfc3986 of absolute", "{s:?}");
    }
    // The normal forms are normalized.
    let n = norm.to_string();
    let nv = RiStr::<S>::new(&n).map_err(|_| Fail { kind: "invalid".into(), detail: format!("normal form {n:?} of {s:?}") })?;
    ensure!(nv.is_normalized(), "normal form not normalized", "{n:?} (of {s:?})");
    ensure_eq!(nv.ensure_rfc3986_normalizable().is_err(), fails, "normal form normalizable", "{n:?} (of {s:?})");
    let m = v.normalize_but_preserve_authorityless_relative_path().to_string();
    let mv = RiStr::<S>::new(&m).map_err(|_| Fail { kind: "invalid".into(), detail: format!("normal form {m:?} of {s:?}") })?;
    ensure!(
        mv.is_normalized_but_authorityless_relative_path_preserved(),
        "preserved normal form not normalized",
        "{m:?} (of {s:?})"
    );
    // Building with normalization reports the same.
    let mut b = Builder::from(v);
    b.normalize();
    match b.build::<RiStr<S>>() {
        Ok(built) => ensure_eq!(built.ensure_rfc3986_normalizable().is_err(), fails, "normalizable (build)", "{s:?}"),
        Err(e) => return fail("build", format!("{s:?}: {e}")),
    }
    Ok(())
}

fn check_resolution<S: Spec>(base: &str, r: &str, iri: bool) -> R {
    let b = RiAbsoluteStr::<S>::new(base).map_err(|_| Fail { kind: "rejected".into(), detail: base.into() })?;
    let rr = RiReferenceStr::<S>::new(r).map_err(|_| Fail { kind: "rejected".into(), detail: r.into() })?;
    let (bp, rp) = (Parts::parse(base), Parts::parse(r));
    for mode in [Mode::None, Mode::Default] {
        let (e, fails) = model::resolve(&bp, &rp, mode, iri);
        let mut n = rr.resolve_against(b);
        if mode == Mode::Default {
            n.enable_normalization();
        }
        ensure_eq!(n.ensure_rfc3986_normalizable().is_err(), fails, "normalizable (resolution)", "{r:?} against {base:?} ({mode:?}), target {e}");
        if mode == Mode::Default {
            let s = n.to_string();
            let v = RiStr::<S>::new(&s).map_err(|_| Fail { kind: "invalid".into(), detail: s.clone() })?;
            ensure!(v.is_normalized(), "resolved and normalized", "{s:?} from {r:?} against {base:?}");
        }
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (s, iri) = match src.weighted(&[1, 12, 6, 6]) {
        0 => {
            let head = ["s:", "s://h", "s://h:", "s://H/"][src.idx(4)];
            (format!("{head}{}", gen::over(src, SYM, 6)), false)
        }
        1 => c05::generate(src),
        2 => {
            // Normalized, or one edit away from it.
            let (s, iri) = c05::generate(src);
            let p = model::normalize(&Parts::parse(&s), Mode::Default, iri).0;
            let s = p.to_string();
            (if src.bool() { gen::mutate(src, &s, 1) } else { s }, iri)
        }
        _ => {
            let iri = src.bool();
            let base = gen::valid_ref(src, iri, Kind::Absolute);
            let r = gen::valid_ref(src, iri, Kind::Reference);
            cx.describe(format_args!("base {base:?} reference {r:?}"));
            check_resolution::<IriSpec>(&base, &r, true)?;
            if !iri {
                check_resolution::<UriSpec>(&base, &r, false)?;
            }
            let fails = model::resolve(&Parts::parse(&base), &Parts::parse(&r), Mode::Default, iri).1;
            cx.mark(fails, "resolution cannot be serialized");
            return Ok(());
        }
    };
    cx.describe(format_args!("{s:?}"));
    if !rfc::valid(Kind::Full, iri, &s) {
        cx.label("not an IRI (no check)");
        return Ok(());
    }
    check::<IriSpec>(&s, true)?;
    if !iri {
        check::<UriSpec>(&s, false)?;
    }
    let p = Parts::parse(&s);
    let (n, fails) = model::normalize(&p, Mode::Default, iri);
    let m = model::normalize(&p, Mode::Preserve, iri).0;
    cx.mark(n == p, "normalized");
    cx.mark(m == p && n != p, "normalized only with the path preserved");
    cx.mark(fails, "not normalizable");
    let parts = [n.scheme != p.scheme, n.authority != p.authority, n.path != p.path, n.query != p.query, n.fragment != p.fragment];
    cx.mark(parts.iter().filter(|x| **x).count() == 1, "exactly one component not normalized");
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 6 } else { 5 };
    Box::new((0..4u64).flat_map(move |h| gen::all_over(vec![0, h], SYM.len() as u64, n)))
}

pub static PROP: Prop = Prop {
    id: "C06",
    quick: 1_200_000,
    thorough: 8_000_000,
    rule: "Each case is one IRI/URI (paths of up to 5 symbols enumerated, then generated ones, normal forms and their one-edit neighbours) \
           or one base and reference. Non-trivial: already normalized, or exactly one component is not, or not normalizable.",
    run,
    enumerate,
    must_reach: &[
        ("normalized", 1000),
        ("normalized only with the path preserved", 30),
        ("not normalizable", 100),
        ("exactly one component not normalized", 1060),
        ("resolution cannot be serialized", 10),
    ],
    assumptions: &[],
};
