//! C12: conversions between types.

use std::borrow::{Borrow, Cow};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::rfc::{self, Kind};

const SYM: &[&str] = &["a", ":", "/", "?", "#", "%41", "\u{E9}", "\u{E000}"];

fn rejected<T>(what: &str, s: &str) -> Result<T, Fail> {
    fail("rejected", format!("{s:?} is valid as {what}"))
}

/// Conversions to and from strings, boxes, pointers and copy-on-write values.
macro_rules! common {
    ($name:ident, $b:ident, $o:ident) => {
        fn $name<S: Spec>(s: &str) -> R {
            const W: &str = stringify!($b);
            let Ok(v) = $b::<S>::new(s) else { return rejected(W, s) };
            let Ok(o) = $o::<S>::try_from(s) else { return rejected(W, s) };
            let texts: &[(&str, &str)] = &[
                ("as_str", v.as_str()),
                ("AsRef<str>", v.as_ref()),
                ("AsRef<Self>", AsRef::<$b<S>>::as_ref(v).as_str()),
                ("Into<&str>", <&str>::from(v)),
                ("as_slice", o.as_slice().as_str()),
                ("Deref", (*o).as_str()),
                ("owned AsRef<str>", o.as_ref()),
                ("owned AsRef<slice>", AsRef::<$b<S>>::as_ref(&o).as_str()),
                ("Borrow<str>", Borrow::<str>::borrow(&o)),
                ("Borrow<slice>", Borrow::<$b<S>>::borrow(&o).as_str()),
            ];
            for (n, t) in texts {
                ensure_eq!(*t, s, n, "{W} {s:?}");
            }
            ensure_eq!(v.len(), s.len(), "len", "{W} {s:?}");
            ensure_eq!(v.is_empty(), s.is_empty(), "is_empty", "{W} {s:?}");
            ensure_eq!(o.len(), s.len(), "len", "{W} {s:?}");
            ensure_eq!(v.to_string(), s, "Display", "{W} {s:?}");
            ensure_eq!(o.to_string(), s, "Display", "{W} {s:?}");
            let bx: Box<$b<S>> = Box::from(v);
            ensure_eq!(bx.as_str(), s, "Box", "{W} {s:?}");
            let rc: Rc<$b<S>> = Rc::from(v);
            ensure_eq!(rc.as_str(), s, "Rc", "{W} {s:?}");
            let arc: Arc<$b<S>> = Arc::from(v);
            ensure_eq!(arc.as_str(), s, "Arc", "{W} {s:?}");
            let cow: Cow<'_, $b<S>> = Cow::from(v);
            ensure!(matches!(cow, Cow::Borrowed(_)), "Cow of slice owned", "{W} {s:?}");
            ensure_eq!(cow.as_str(), s, "Cow", "{W} {s:?}");
            ensure_eq!(cow.into_owned().as_str(), s, "Cow::into_owned", "{W} {s:?}");
            ensure_eq!(v.to_owned().as_str(), s, "to_owned", "{W} {s:?}");
            ensure_eq!($o::<S>::from(v).as_str(), s, "From<&slice>", "{W} {s:?}");
            ensure_eq!(o.clone().as_str(), s, "clone", "{W} {s:?}");
            let cow: Cow<'_, $b<S>> = Cow::from(o.clone());
            ensure_eq!(cow.as_str(), s, "Cow of owned", "{W} {s:?}");
            let bx: Box<$b<S>> = Box::from(o.clone());
            ensure_eq!(bx.as_str(), s, "Box of owned", "{W} {s:?}");
            // A box made from a value with spare capacity.
            let mut big = String::with_capacity(s.len() + 40);
            big.push_str(s);
            let Ok(mut bo) = $o::<S>::try_from(big) else { return rejected(W, s) };
            ensure!(bo.capacity() >= s.len(), "capacity", "{W} {s:?}");
            let bx: Box<$b<S>> = bo.clone().into();
            ensure_eq!(bx.as_str(), s, "Box of roomy owned", "{W} {s:?}");
            bo.shrink_to_fit();
            ensure_eq!(bo.as_str(), s, "shrink_to_fit", "{W} {s:?}");
            ensure!(bo.capacity() >= s.len(), "capacity", "{W} {s:?}");
            ensure_eq!(String::from(bo), s, "Into<String>", "{W} {s:?}");
            match ($o::<S>::from_str(s), <&$b<S>>::try_from(s), <&$b<S>>::try_from(s.as_bytes()), $o::<S>::try_from(s.as_bytes()), s.parse::<$o<S>>()) {
                (Ok(a), Ok(b), Ok(c), Ok(d), Ok(e)) => {
                    ensure!(a.as_str() == s && b.as_str() == s && c.as_str() == s && d.as_str() == s && e.as_str() == s, "parse", "{W} {s:?}")
                }
                _ => return rejected(W, s),
            }
            Ok(())
        }
    };
}
common!(c_ref, RiReferenceStr, RiReferenceString);
common!(c_full, RiStr, RiString);
common!(c_abs, RiAbsoluteStr, RiAbsoluteString);
common!(c_rel, RiRelativeStr, RiRelativeString);
common!(c_query, RiQueryStr, RiQueryString);
common!(c_frag, RiFragmentStr, RiFragmentString);

/// Widening and narrowing along one edge.
macro_rules! edge {
    ($name:ident, $fb:ident, $fo:ident, $tb:ident, $to:ident) => {
        /// `s` is valid for the wide type; `narrow` tells whether it is for the narrow one.
        fn $name<S: Spec>(s: &str, narrow: bool) -> R {
            const W: &str = concat!(stringify!($fb), " and ", stringify!($tb));
            let Ok(w) = $tb::<S>::new(s) else { return rejected(stringify!($tb), s) };
            let wo = w.to_owned();
            let n = <&$fb<S>>::try_from(w);
            ensure_eq!(n.as_ref().ok().map(|x| x.as_str()), narrow.then_some(s), "narrowing of slice", "{W}: {s:?}");
            match $fo::<S>::try_from(wo) {
                Ok(x) => {
                    ensure!(narrow, "narrowing of owned", "{W}: {s:?} accepted");
                    ensure_eq!(x.as_str(), s, "narrowing of owned", "{W}: {s:?}");
                }
                Err(e) => {
                    ensure!(!narrow, "narrowing of owned", "{W}: {s:?} rejected");
                    let _ = (e.validation_error(), e.to_string());
                    let back: $to<S> = e.into_source();
                    ensure_eq!(back.as_str(), s, "value given back", "{W}: {s:?}");
                }
            }
            if narrow {
                let v = $fb::<S>::new(s).or_else(|_| rejected(stringify!($fb), s))?;
                ensure_eq!(AsRef::<$tb<S>>::as_ref(v).as_str(), s, "widening AsRef", "{W}: {s:?}");
                ensure_eq!(<&$tb<S>>::from(v).as_str(), s, "widening From", "{W}: {s:?}");
                let o = v.to_owned();
                ensure_eq!(AsRef::<$tb<S>>::as_ref(&o).as_str(), s, "widening AsRef of owned", "{W}: {s:?}");
                ensure_eq!($to::<S>::from(o).as_str(), s, "widening of owned", "{W}: {s:?}");
            } else {
                ensure!($fb::<S>::new(s).is_err(), "accepted", "{s:?} as {}", stringify!($fb));
            }
            Ok(())
        }
    };
}
edge!(e_full_ref, RiStr, RiString, RiReferenceStr, RiReferenceString);
edge!(e_abs_full, RiAbsoluteStr, RiAbsoluteString, RiStr, RiString);
edge!(e_abs_ref, RiAbsoluteStr, RiAbsoluteString, RiReferenceStr, RiReferenceString);
edge!(e_rel_ref, RiRelativeStr, RiRelativeString, RiReferenceStr, RiReferenceString);

/// URI and IRI of one kind.
macro_rules! spec_edge {
    ($name:ident, $ub:ident, $uo:ident, $ib:ident, $io:ident) => {
        fn $name(s: &str, uri: bool) -> R {
            const W: &str = concat!(stringify!($ub), " and ", stringify!($ib));
            let Ok(i) = $ib::new(s) else { return rejected(stringify!($ib), s) };
            ensure_eq!(i.as_uri().map(|u| u.as_str()), uri.then_some(s), "as_uri", "{W}: {s:?}");
            match i.to_owned().try_into_uri() {
                Ok(u) => ensure!(uri && u.as_str() == s, "try_into_uri", "{W}: {s:?} gives {u:?}"),
                Err(b) => ensure!(!uri && b.as_str() == s, "try_into_uri", "{W}: {s:?} gives back {b:?}"),
            }
            if uri {
                let u = $ub::new(s).or_else(|_| rejected(stringify!($ub), s))?;
                ensure_eq!(AsRef::<$ib>::as_ref(u).as_str(), s, "AsRef", "{W}: {s:?}");
                let o = u.to_owned();
                ensure_eq!(AsRef::<$ib>::as_ref(&o).as_str(), s, "AsRef of owned", "{W}: {s:?}");
                ensure_eq!($io::from(o).as_str(), s, "From", "{W}: {s:?}");
            } else {
                ensure!($ub::new(s).is_err(), "accepted", "{s:?} as {}", stringify!($ub));
            }
            Ok(())
        }
    };
}
spec_edge!(s_ref, UriReferenceStr, UriReferenceString, IriReferenceStr, IriReferenceString);
spec_edge!(s_full, UriStr, UriString, IriStr, IriString);
spec_edge!(s_abs, UriAbsoluteStr, UriAbsoluteString, IriAbsoluteStr, IriAbsoluteString);
spec_edge!(s_rel, UriRelativeStr, UriRelativeString, IriRelativeStr, IriRelativeString);
spec_edge!(s_query, UriQueryStr, UriQueryString, IriQueryStr, IriQueryString);
spec_edge!(s_frag, UriFragmentStr, UriFragmentString, IriFragmentStr, IriFragmentString);

const KINDS: [Kind; 6] = [Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative, Kind::Query, Kind::Fragment];

/// A reference is an IRI or a relative reference, never both.
fn split<S: Spec>(s: &str, full: bool) -> R {
    let r = RiReferenceStr::<S>::new(s).or_else(|_| rejected("reference", s))?;
    let o = r.to_owned();
    match r.to_iri() {
        Ok(i) => ensure!(full && i.as_str() == s, "to_iri", "{s:?} gives {i:?}"),
        Err(e) => ensure!(!full && e.as_str() == s, "to_iri", "{s:?} gives {e:?}"),
    }
    match r.to_relative_iri() {
        Ok(i) => ensure!(!full && i.as_str() == s, "to_relative_iri", "{s:?} gives {i:?}"),
        Err(e) => ensure!(full && e.as_str() == s, "to_relative_iri", "{s:?} gives {e:?}"),
    }
    match o.clone().into_iri() {
        Ok(i) => ensure!(full && i.as_str() == s, "into_iri", "{s:?} gives {i:?}"),
        Err(e) => ensure!(!full && e.as_str() == s, "into_iri", "{s:?} gives {e:?}"),
    }
    match o.into_relative_iri() {
        Ok(i) => ensure!(!full && i.as_str() == s, "into_relative_iri", "{s:?} gives {i:?}"),
        Err(e) => ensure!(full && e.as_str() == s, "into_relative_iri", "{s:?} gives {e:?}"),
    }
    Ok(())
}

fn prefixed<S: Spec>(s: &str, iri: bool) -> R {
    let q = s.strip_prefix('?').filter(|r| rfc::valid(Kind::Query, iri, r));
    ensure_eq!(RiQueryStr::<S>::from_prefixed(s).ok().map(|x| x.as_str()), q, "query from_prefixed", "{s:?}");
    let f = s.strip_prefix('#').filter(|r| rfc::valid(Kind::Fragment, iri, r));
    ensure_eq!(RiFragmentStr::<S>::from_prefixed(s).ok().map(|x| x.as_str()), f, "fragment from_prefixed", "{s:?}");
    Ok(())
}

fn graph<S: Spec>(s: &str, iri: bool) -> Result<Vec<Kind>, Fail> {
    let ok: Vec<Kind> = KINDS.into_iter().filter(|k| rfc::valid(*k, iri, s)).collect();
    let is = |k| ok.contains(&k);
    for k in &ok {
        match k {
            Kind::Reference => c_ref::<S>(s)?,
            Kind::Full => c_full::<S>(s)?,
            Kind::Absolute => c_abs::<S>(s)?,
            Kind::Relative => c_rel::<S>(s)?,
            Kind::Query => c_query::<S>(s)?,
            _ => c_frag::<S>(s)?,
        }
    }
    if is(Kind::Reference) {
        e_full_ref::<S>(s, is(Kind::Full))?;
        e_abs_ref::<S>(s, is(Kind::Absolute))?;
        e_rel_ref::<S>(s, is(Kind::Relative))?;
        split::<S>(s, is(Kind::Full))?;
    }
    if is(Kind::Full) {
        e_abs_full::<S>(s, is(Kind::Absolute))?;
    }
    prefixed::<S>(s, iri)?;
    Ok(ok)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let s = match src.weighted(&[1, 16, 4, 2]) {
        0 => gen::over(src, SYM, 6),
        1 => {
            let iri = src.chance(2, 3);
            let k = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative]);
            gen::maybe(src, iri, k)
        }
        2 => {
            let iri = src.bool();
            let t = if src.bool() { gen::query(src, iri) } else { gen::fragment(src, iri) };
            format!("{}{t}", src.pick(&["", "?", "#", "??", "##"]))
        }
        _ => gen::soup(src, 10),
    };
    cx.describe(format_args!("{s:?}"));
    let i = graph::<IriSpec>(&s, true)?;
    let u = graph::<UriSpec>(&s, false)?;
    for k in &i {
        let uri = u.contains(k);
        match k {
            Kind::Reference => s_ref(&s, uri)?,
            Kind::Full => s_full(&s, uri)?,
            Kind::Absolute => s_abs(&s, uri)?,
            Kind::Relative => s_rel(&s, uri)?,
            Kind::Query => s_query(&s, uri)?,
            _ => s_frag(&s, uri)?,
        }
    }
    cx.mark(i.len() > 1, "valid for several kinds");
    cx.mark(i.contains(&Kind::Full) && !i.contains(&Kind::Absolute), "full but not absolute");
    cx.mark(i.contains(&Kind::Relative), "relative");
    cx.mark(i.len() > u.len(), "IRI only");
    cx.mark(i.is_empty(), "valid for none");
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 6 } else { 5 };
    Box::new(gen::all_over(vec![0], SYM.len() as u64, n))
}

pub static PROP: Prop = Prop {
    id: "C12",
    quick: 750_000,
    thorough: 6_000_000,
    rule: "Each case is one text converted along every edge of the graph of types it has values of (all texts of up to 5 symbols out of 8 \
           enumerated, then generated ones). Non-trivial: valid for several kinds, or for none (every narrowing must fail), \
           or in one repertoire only.",
    run,
    enumerate,
    must_reach: &[
        ("valid for several kinds", 3000),
        ("full but not absolute", 240),
        ("relative", 1500),
        ("IRI only", 1010),
        ("valid for none", 800),
    ],
    assumptions: &[],
};
