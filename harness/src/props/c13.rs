//! C13: histories of mutations on owned values, against a component model.

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{Auth, Parts};
use crate::rfc::{self, Kind};

/// An owned value of some kind.
#[derive(Clone)]
enum V<S: Spec> {
    Ref(RiReferenceString<S>),
    Full(RiString<S>),
    Abs(RiAbsoluteString<S>),
    Rel(RiRelativeString<S>),
}
enum Any {
    I(V<IriSpec>),
    U(V<UriSpec>),
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Ref($x) => $e,
            V::Full($x) => $e,
            V::Abs($x) => $e,
            V::Rel($x) => $e,
        }
    };
}
macro_rules! any {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Any::I(v) => each!(v, $x => $e),
            Any::U(v) => each!(v, $x => $e),
        }
    };
}

impl<S: Spec> V<S> {
    fn new(kind: Kind, s: String) -> Option<Self> {
        Some(match kind {
            Kind::Reference => V::Ref(s.try_into().ok()?),
            Kind::Full => V::Full(s.try_into().ok()?),
            Kind::Absolute => V::Abs(s.try_into().ok()?),
            _ => V::Rel(s.try_into().ok()?),
        })
    }
    fn set_fragment(&mut self, f: Option<&str>) -> Option<()> {
        let f = match f {
            Some(f) => Some(RiFragmentStr::<S>::new(f).ok()?),
            None => None,
        };
        match self {
            V::Ref(x) => x.set_fragment(f),
            V::Full(x) => x.set_fragment(f),
            V::Rel(x) => x.set_fragment(f),
            V::Abs(_) => return None,
        }
        Some(())
    }
    /// Converts to another kind; the value of the old kind on failure.
    fn convert(self, to: Kind) -> Result<Self, Self> {
        Ok(match (self, to) {
            (V::Ref(x), Kind::Full) => V::Full(x.try_into().map_err(|e: CreationError<_>| V::Ref(e.into_source()))?),
            (V::Ref(x), Kind::Absolute) => V::Abs(x.try_into().map_err(|e: CreationError<_>| V::Ref(e.into_source()))?),
            (V::Ref(x), Kind::Relative) => V::Rel(x.try_into().map_err(|e: CreationError<_>| V::Ref(e.into_source()))?),
            (V::Full(x), Kind::Reference) => V::Ref(x.into()),
            (V::Full(x), Kind::Absolute) => V::Abs(x.try_into().map_err(|e: CreationError<_>| V::Full(e.into_source()))?),
            (V::Abs(x), Kind::Reference) => V::Ref(x.into()),
            (V::Abs(x), Kind::Full) => V::Full(x.into()),
            (V::Rel(x), Kind::Reference) => V::Ref(x.into()),
            (v, _) => return Err(v),
        })
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Op {
    SetFragment(Option<String>),
    RemovePassword,
    RemoveNonemptyPassword,
    ReplaceHost(String, bool, bool), // host, registered name only, fallible
    Shrink,
    EncodeInline(bool),
    IntoUri,
    TryIntoUri,
    IntoIri,
    Convert(Kind),
    DropFragment,
    SplitFragment,
    SplitKind,
    Clone,
}

struct M {
    p: Parts,
    kind: Kind,
    iri: bool,
}

fn encode(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii() { char::from(b).to_string() } else { format!("%{b:02X}") }).collect()
}

fn map_parts(p: &Parts, f: impl Fn(&str) -> String) -> Parts {
    Parts {
        scheme: p.scheme.as_deref().map(&f),
        authority: p.authority.as_deref().map(&f),
        path: f(&p.path),
        query: p.query.as_deref().map(&f),
        fragment: p.fragment.as_deref().map(&f),
    }
}

fn gen_op(src: &mut Src, m: &M) -> Op {
    match src.weighted(&[6, 2, 2, 8, 2, 2, 1, 1, 2, 4, 1, 1, 1, 1]) {
        0 => Op::SetFragment(src.chance(3, 4).then(|| gen::fragment(src, m.iri))),
        1 => Op::RemovePassword,
        2 => Op::RemoveNonemptyPassword,
        3 => {
            let h = if src.chance(4, 5) { gen::host(src, m.iri) } else { gen::host_any(src, true) };
            Op::ReplaceHost(h, src.bool(), src.bool())
        }
        4 => Op::Shrink,
        5 => Op::EncodeInline(src.bool()),
        6 => Op::IntoUri,
        7 => Op::TryIntoUri,
        8 => Op::IntoIri,
        9 => Op::Convert(src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative])),
        10 => Op::DropFragment,
        11 => Op::SplitFragment,
        12 => Op::SplitKind,
        _ => Op::Clone,
    }
}

/// Applies the operation to both and compares what it returns.
fn step(v: Any, m: &mut M, op: &Op, cx: &mut Cx) -> Result<Any, Fail> {
    let mut v = v;
    let before = m.p.to_string();
    match op {
        Op::SetFragment(f) => {
            if m.kind == Kind::Absolute || !f.as_ref().map_or(true, |f| rfc::valid(Kind::Fragment, m.iri, f)) {
                return Ok(v);
            }
            let done = match &mut v {
                Any::I(v) => v.set_fragment(f.as_deref()),
                Any::U(v) => v.set_fragment(f.as_deref()),
            };
            ensure!(done.is_some(), "fragment rejected", "{f:?}");
            m.p.fragment = f.clone();
        }
        Op::RemovePassword | Op::RemoveNonemptyPassword => {
            let all = *op == Op::RemovePassword;
            any!(&mut v, x => if all { x.remove_password_inline() } else { x.remove_nonempty_password_inline() });
            if let Some(mut a) = m.p.auth() {
                if let Some((u, pw)) = a.userinfo.as_deref().and_then(|u| u.split_once(':')) {
                    if !pw.is_empty() || all {
                        cx.label("password removed");
                    }
                    a.userinfo = Some(if all { u.to_string() } else { format!("{u}:") });
                    m.p.authority = Some(a.to_string());
                }
            }
        }
        Op::ReplaceHost(h, reg, fallible) => {
            let valid = rfc::valid(Kind::Host, m.iri, h);
            let does = valid && m.p.auth().is_some_and(|a| !*reg || a.is_reg_name());
            let got: Option<String> = any!(&mut v, x => match (*reg, *fallible) {
                (false, false) => x.replace_host(h).map(str::to_string),
                (false, true) => x.try_replace_host(h).expect("no allocation failure").map(str::to_string),
                (true, false) => x.replace_host_reg_name(h).map(str::to_string),
                (true, true) => x.try_replace_host_reg_name(h).expect("no allocation failure").map(str::to_string),
            });
            ensure_eq!(got, does.then(|| h.clone()), "returned host", "{before:?}: {op:?}");
            if does {
                cx.label("host replaced");
                let a = m.p.auth().unwrap();
                if h.len() > a.host.len() {
                    cx.label("longer host");
                }
                m.p.authority = Some(Auth { host: h.clone(), ..a }.to_string());
            } else if m.p.authority.is_some() {
                cx.label("host not replaced");
            }
        }
        Op::Shrink => any!(&mut v, x => x.shrink_to_fit()),
        Op::EncodeInline(fallible) => {
            if let Any::I(v) = &mut v {
                let ok = each!(v, x => if *fallible { x.try_encode_to_uri_inline().is_ok() } else { x.encode_to_uri_inline(); true });
                ensure!(ok, "alloc", "{before:?}");
                m.p = map_parts(&m.p, encode);
            }
        }
        Op::IntoUri => {
            if let Any::I(i) = v {
                v = Any::U(match i {
                    V::Ref(x) => V::Ref(x.encode_into_uri()),
                    V::Full(x) => V::Full(x.encode_into_uri()),
                    V::Abs(x) => V::Abs(x.encode_into_uri()),
                    V::Rel(x) => V::Rel(x.encode_into_uri()),
                });
                m.p = map_parts(&m.p, encode);
                m.iri = false;
            }
        }
        Op::TryIntoUri => {
            if let Any::I(i) = v {
                let r = match i {
                    V::Ref(x) => x.try_into_uri().map(V::Ref).map_err(V::Ref),
                    V::Full(x) => x.try_into_uri().map(V::Full).map_err(V::Full),
                    V::Abs(x) => x.try_into_uri().map(V::Abs).map_err(V::Abs),
                    V::Rel(x) => x.try_into_uri().map(V::Rel).map_err(V::Rel),
                };
                ensure_eq!(r.is_ok(), before.is_ascii(), "try_into_uri", "{before:?}");
                v = match r {
                    Ok(u) => {
                        m.iri = false;
                        Any::U(u)
                    }
                    Err(i) => Any::I(i),
                };
            }
        }
        Op::IntoIri => {
            if let Any::U(u) = v {
                v = Any::I(match u {
                    V::Ref(x) => V::Ref(x.into()),
                    V::Full(x) => V::Full(x.into()),
                    V::Abs(x) => V::Abs(x.into()),
                    V::Rel(x) => V::Rel(x.into()),
                });
                m.iri = true;
            }
        }
        Op::Convert(to) => {
            use Kind::*;
            let does = matches!(
                (m.kind, to),
                (Reference, Full | Absolute | Relative) | (Full, Reference | Absolute) | (Absolute, Reference | Full) | (Relative, Reference)
            ) && rfc::valid(*to, m.iri, &before);
            let ok;
            v = match v {
                Any::I(x) => match x.convert(*to) {
                    Ok(x) => {
                        ok = true;
                        Any::I(x)
                    }
                    Err(x) => {
                        ok = false;
                        Any::I(x)
                    }
                },
                Any::U(x) => match x.convert(*to) {
                    Ok(x) => {
                        ok = true;
                        Any::U(x)
                    }
                    Err(x) => {
                        ok = false;
                        Any::U(x)
                    }
                },
            };
            ensure_eq!(ok, does, "conversion", "{before:?} ({:?} to {to:?})", m.kind);
            if ok {
                m.kind = *to;
            }
        }
        Op::DropFragment | Op::SplitFragment => {
            if m.kind == Kind::Full {
                let mut frag = None;
                let drop = *op == Op::DropFragment;
                fn cut<S: Spec>(v: V<S>, drop: bool, frag: &mut Option<String>) -> V<S> {
                    match v {
                        V::Full(x) if drop => V::Abs(x.into_absolute()),
                        V::Full(x) => {
                            let (a, f) = x.into_absolute_and_fragment();
                            *frag = f.map(|f| f.as_str().to_string());
                            V::Abs(a)
                        }
                        v => v,
                    }
                }
                v = match v {
                    Any::I(x) => Any::I(cut(x, drop, &mut frag)),
                    Any::U(x) => Any::U(cut(x, drop, &mut frag)),
                };
                if !drop {
                    ensure_eq!(frag, m.p.fragment, "fragment split off", "{before:?}");
                }
                m.p.fragment = None;
                m.kind = Kind::Absolute;
            }
        }
        Op::SplitKind => {
            if m.kind == Kind::Reference {
                fn cut<S: Spec>(v: V<S>) -> V<S> {
                    match v {
                        V::Ref(x) => match x.into_iri() {
                            Ok(x) => V::Full(x),
                            Err(x) => V::Rel(x),
                        },
                        v => v,
                    }
                }
                v = match v {
                    Any::I(x) => Any::I(cut(x)),
                    Any::U(x) => Any::U(cut(x)),
                };
                let full = any!(&v, x => AsRef::<str>::as_ref(x) == before) && matches!(&v, Any::I(V::Full(_)) | Any::U(V::Full(_)));
                ensure_eq!(full, m.p.scheme.is_some(), "into_iri", "{before:?}");
                m.kind = if full { Kind::Full } else { Kind::Relative };
            }
        }
        Op::Clone => {
            v = match &v {
                Any::I(x) => Any::I(x.clone()),
                Any::U(x) => Any::U(x.clone()),
            }
        }
    }
    Ok(v)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let iri = src.bool();
    let kind = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative]);
    let s = match src.weighted(&[3, 4, 1]) {
        0 => gen::valid_ref(src, iri, kind),
        1 => {
            // With an authority.
            let scheme = match kind {
                Kind::Relative => String::new(),
                Kind::Reference if src.bool() => String::new(),
                _ => format!("{}:", gen::scheme(src)),
            };
            let mut s = format!("{scheme}//{}", gen::authority(src, iri));
            s.push_str(&gen::path_for(src, iri, true, true));
            if src.chance(1, 3) {
                s.push('?');
                s.push_str(&gen::query(src, iri));
            }
            if kind != Kind::Absolute && src.chance(1, 3) {
                s.push('#');
                s.push_str(&gen::fragment(src, iri));
            }
            s
        }
        _ => {
            let scheme = if kind == Kind::Relative { "" } else { "s:" };
            format!("{scheme}{}", src.pick(&["", "//", "//@", "//:", "//u:@", "//[::1]:1", "//1.2.3.4", "?", "//?", "///"]))
        }
    };
    if s.len() > 5000 || !rfc::valid(kind, iri, &s) {
        cx.label("too long or not valid (no check)");
        return Ok(());
    }
    let extra = src.pick_c(&[0usize, 0, 1, 3, 64]);
    let mut raw = String::with_capacity(s.len() + extra);
    raw.push_str(&s);
    let new = if iri { V::new(kind, raw).map(Any::I) } else { V::new(kind, raw).map(Any::U) };
    let Some(mut v) = new else { return fail("rejected", format!("{s:?} as {kind:?} (iri: {iri})")) };
    let mut m = M { p: Parts::parse(&s), kind, iri };
    cx.describe(format_args!("{s:?} as {kind:?} (iri: {iri}, capacity +{extra})"));
    let n = src.range(1, 12);
    let mut changes = 0;
    for i in 0..n {
        let op = gen_op(src, &m);
        cx.describe(format_args!("{op:?}"));
        let before = m.p.to_string();
        v = step(v, &mut m, &op, cx)?;
        let exp = m.p.to_string();
        let got = any!(&v, x => x.as_str().to_string());
        ensure_eq!(got, exp, "value", "step {i}: {before:?} after {op:?}");
        if exp.len() > 20_000 {
            cx.label("ended as too long");
            break;
        }
        ensure!(rfc::valid(m.kind, m.iri, &got), "invalid", "step {i}: {before:?} after {op:?} is {got:?} ({:?}, iri: {})", m.kind, m.iri);
        let shown = match &v {
            Any::I(V::Ref(_)) => (Kind::Reference, true),
            Any::I(V::Full(_)) => (Kind::Full, true),
            Any::I(V::Abs(_)) => (Kind::Absolute, true),
            Any::I(V::Rel(_)) => (Kind::Relative, true),
            Any::U(V::Ref(_)) => (Kind::Reference, false),
            Any::U(V::Full(_)) => (Kind::Full, false),
            Any::U(V::Abs(_)) => (Kind::Absolute, false),
            Any::U(V::Rel(_)) => (Kind::Relative, false),
        };
        ensure_eq!(shown, (m.kind, m.iri), "type", "step {i}");
        // The components read from the value are those of the model.
        if let Some(a) = m.p.auth() {
            let host = match &v {
                Any::I(x) => each!(x, x => x.authority_components().map(|c| c.host().to_string())),
                Any::U(x) => each!(x, x => x.authority_components().map(|c| c.host().to_string())),
            };
            ensure_eq!(host, Some(a.host), "host", "step {i}: {got:?}");
        }
        if exp != before {
            changes += 1;
        }
    }
    cx.mark(changes > 0, "changed");
    cx.mark(changes > 2, "changed more than twice");
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C13",
    quick: 900_000,
    thorough: 8_000_000,
    rule: "Each case is one owned value of a kind, repertoire and spare capacity, and a history of up to 12 mutations and conversions, \
           checked after each step. Non-trivial: the text changed at least once.",
    run,
    enumerate: no_enum,
    must_reach: &[
        ("changed", 3000),
        ("changed more than twice", 1000),
        ("password removed", 300),
        ("host replaced", 2000),
        ("longer host", 1000),
        ("host not replaced", 1000),
    ],
    assumptions: &["a history ends when the value exceeds 5000 bytes (rarely 20000)", "allocation failures are the subject of C22"],
};
