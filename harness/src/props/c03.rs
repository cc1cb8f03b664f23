//! C03: component access against Appendix B.

use iri_string::components::AuthorityComponents;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{Auth, Parts};
use crate::rfc::{self, Kind};

const ALPHABET: &[&str] = &["a", ":", "/", "?", "#", "@", "[::1]", "1.2.3.4", "%3A", "\u{E9}", ".", "0"];

fn auth_eq(got: Option<AuthorityComponents<'_>>, exp: &Option<Auth>, what: &str) -> R {
    ensure_eq!(got.is_some(), exp.is_some(), "authority-components", "{what}: presence of authority");
    if let (Some(g), Some(e)) = (got, exp) {
        ensure_eq!(g.userinfo(), e.userinfo.as_deref(), "userinfo", "{what}");
        ensure_eq!(g.host(), e.host, "host", "{what}");
        ensure_eq!(g.port(), e.port.as_deref(), "port", "{what}");
        let reg = e.is_reg_name().then_some(e.host.as_str());
        ensure_eq!(g.reg_name(), reg, "reg-name", "{what}");
    }
    Ok(())
}

macro_rules! common {
    ($v:expr, $p:expr, $auth:expr, $what:expr) => {{
        let (v, p, what) = ($v, $p, $what);
        ensure_eq!(v.authority_str(), p.authority.as_deref(), "authority", "{what} authority");
        ensure_eq!(v.path_str(), p.path, "path", "{what} path");
        ensure_eq!(v.query_str(), p.query.as_deref(), "query", "{what} query");
        ensure_eq!(v.query().map(|q| q.as_str()), p.query.as_deref(), "query", "{what} typed query");
        auth_eq(v.authority_components(), $auth, what)?;
    }};
}
macro_rules! frag {
    ($v:expr, $p:expr, $what:expr) => {{
        let (v, p, what) = ($v, $p, $what);
        ensure_eq!(v.fragment_str(), p.fragment.as_deref(), "fragment", "{what} fragment");
        ensure_eq!(v.fragment().map(|q| q.as_str()), p.fragment.as_deref(), "fragment", "{what} typed fragment");
    }};
}

fn set_fragment_checks<S: Spec>(s: &str, p: &Parts, new: Option<&str>) -> R {
    let frag = new.map(|f| RiFragmentStr::<S>::new(f).unwrap());
    let mut e = p.clone();
    e.fragment = new.map(str::to_string);
    let e = e.to_string();
    let mut r: RiReferenceString<S> = s.parse().unwrap();
    r.set_fragment(frag);
    ensure_eq!(r.as_str(), e, "set-fragment", "reference {s:?} set_fragment({new:?})");
    if p.scheme.is_some() {
        let mut r: RiString<S> = s.parse().unwrap();
        r.set_fragment(frag);
        ensure_eq!(r.as_str(), e, "set-fragment", "{s:?} set_fragment({new:?})");
    } else {
        let mut r: RiRelativeString<S> = s.parse().unwrap();
        r.set_fragment(frag);
        ensure_eq!(r.as_str(), e, "set-fragment", "relative {s:?} set_fragment({new:?})");
    }
    Ok(())
}

fn check<S: Spec>(s: &str, new_frag: Option<&str>) -> R {
    let p = Parts::parse(s);
    if p.to_string() != s {
        return fail("model", format!("the model does not recompose {s:?}"));
    }
    let auth = p.auth();
    let r = match RiReferenceStr::<S>::new(s) {
        Ok(r) => r,
        Err(_) => return fail("rejected", format!("{s:?} is a valid reference")),
    };
    ensure_eq!(r.scheme_str(), p.scheme.as_deref(), "scheme", "reference scheme");
    common!(r, &p, &auth, "reference");
    frag!(r, &p, "reference");
    let owned = r.to_owned();
    ensure_eq!(owned.scheme_str(), p.scheme.as_deref(), "scheme", "owned reference scheme");
    common!(&owned, &p, &auth, "owned reference");

    // The typed views and their prefixed constructors.
    if let Some(q) = r.query() {
        let pre = format!("?{}", q.as_str());
        ensure_eq!(RiQueryStr::<S>::from_prefixed(&pre).map(|x| x.as_str()), Ok(q.as_str()), "prefixed", "query");
        ensure!(RiQueryStr::<S>::from_prefixed(&pre[1..]).is_err() || pre[1..].starts_with('?'), "prefixed", "query {pre:?}");
    }
    if let Some(q) = r.fragment() {
        let pre = format!("#{}", q.as_str());
        ensure_eq!(RiFragmentStr::<S>::from_prefixed(&pre).map(|x| x.as_str()), Ok(q.as_str()), "prefixed", "fragment");
        ensure!(RiFragmentStr::<S>::from_prefixed(&pre[1..]).is_err(), "prefixed", "fragment {pre:?}");
    }

    let without = Parts { fragment: None, ..p.clone() }.to_string();
    if p.scheme.is_some() {
        let full = match r.to_iri() {
            Ok(f) => f,
            Err(_) => return fail("kind", "to_iri() denies a reference with scheme"),
        };
        ensure!(r.to_relative_iri().is_err(), "kind", "to_relative_iri() accepts a reference with scheme");
        ensure_eq!(full.as_str(), s, "text", "to_iri");
        ensure_eq!(Some(full.scheme_str()), p.scheme.as_deref(), "scheme", "full scheme");
        common!(full, &p, &auth, "full");
        frag!(full, &p, "full");
        ensure_eq!(full.to_absolute().as_str(), without, "to-absolute", "to_absolute");
        let (a, f) = full.to_absolute_and_fragment();
        ensure_eq!(a.as_str(), without, "to-absolute", "to_absolute_and_fragment");
        ensure_eq!(f.map(|f| f.as_str()), p.fragment.as_deref(), "to-absolute", "fragment of to_absolute_and_fragment");
        let own: RiString<S> = full.to_owned();
        ensure_eq!(own.clone().into_absolute().as_str(), without, "to-absolute", "into_absolute");
        let (a2, f2) = own.into_absolute_and_fragment();
        ensure_eq!(a2.as_str(), without, "to-absolute", "into_absolute_and_fragment");
        ensure_eq!(f2.as_ref().map(|f| f.as_str()), p.fragment.as_deref(), "to-absolute", "into_absolute_and_fragment");
        ensure_eq!(owned.clone().into_iri().map(|x| x.to_string()).ok().as_deref(), Some(s), "kind", "into_iri");
        ensure!(owned.into_relative_iri().is_err(), "kind", "into_relative_iri accepts");
        let pa = Parts { fragment: None, ..p.clone() };
        ensure_eq!(Some(a.scheme_str()), pa.scheme.as_deref(), "scheme", "absolute scheme");
        common!(a, &pa, &auth, "absolute");
        common!(&a2, &pa, &auth, "owned absolute");
    } else {
        let rel = match r.to_relative_iri() {
            Ok(f) => f,
            Err(_) => return fail("kind", "to_relative_iri() denies a reference without scheme"),
        };
        ensure!(r.to_iri().is_err(), "kind", "to_iri() accepts a reference without scheme");
        ensure_eq!(rel.as_str(), s, "text", "to_relative_iri");
        common!(rel, &p, &auth, "relative");
        frag!(rel, &p, "relative");
        ensure_eq!(owned.clone().into_relative_iri().map(|x| x.to_string()).ok().as_deref(), Some(s), "kind", "into_relative_iri");
        ensure!(owned.into_iri().is_err(), "kind", "into_iri accepts");
    }
    set_fragment_checks::<S>(s, &p, new_frag)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (s, new_frag, iri) = match src.weighted(&[1, 12, 2]) {
        0 => (gen::over(src, ALPHABET, 6), Some(String::new()), false),
        m => {
            let iri = src.chance(2, 3);
            let mut s = gen::valid_ref(src, iri, Kind::Reference);
            if m == 2 {
                s = gen::mutate(src, &s, 2);
            }
            let f = src.bool().then(|| gen::fragment(src, iri));
            (s, f, iri)
        }
    };
    cx.describe(format_args!("{s:?}"));
    if !rfc::valid(Kind::Reference, true, &s) {
        cx.label("not a reference (no check)");
        return Ok(());
    }
    check::<IriSpec>(&s, new_frag.as_deref())?;
    if rfc::valid(Kind::Reference, false, &s) {
        let f = new_frag.as_deref().filter(|_| !iri);
        check::<UriSpec>(&s, f)?;
        cx.label("URI reference");
    }
    let p = Parts::parse(&s);
    if let Some(a) = p.auth() {
        if a.userinfo.is_some() && a.port.is_some() {
            cx.label("userinfo and port");
        }
        if a.host.starts_with('[') {
            cx.label("IP literal");
        }
    }
    let n = [p.scheme.is_some(), p.authority.is_some(), !p.path.is_empty(), p.query.is_some(), p.fragment.is_some()]
        .iter()
        .filter(|x| **x)
        .count();
    cx.mark(n >= 3, "three or more components");
    let empties = [&p.authority, &p.query, &p.fragment].iter().filter(|x| x.as_deref() == Some("")).count();
    cx.mark(empties > 0, "a present but empty component");
    let delims = |x: &Option<String>| x.as_deref().is_some_and(|x| x.contains([':', '/', '?', '@']));
    cx.mark(delims(&p.query) || delims(&p.fragment), "delimiters in query or fragment");
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(gen::all_over(vec![0], ALPHABET.len() as u64, if thorough { 6 } else { 5 }))
}

pub static PROP: Prop = Prop {
    id: "C03",
    quick: 1_200_000,
    thorough: 10_000_000,
    rule: "Each case is one string (all strings of up to 5 symbols over a 12-symbol alphabet, then grammar-derived references, some edited); \
           those that are references are decomposed through every type and compared with Appendix B. Non-trivial: three or more \
           components, an empty component, or delimiters inside query or fragment.",
    run,
    enumerate,
    must_reach: &[
        ("three or more components", 2000),
        ("a present but empty component", 500),
        ("delimiters in query or fragment", 300),
        ("userinfo and port", 230),
        ("IP literal", 300),
        ("URI reference", 2000),
    ],
    assumptions: &[],
};
