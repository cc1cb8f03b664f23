//! C10: the builder against a model that keeps the last assignments.

use std::fmt;
use std::net::IpAddr;

use iri_string::build::{Buildable, Builder, Built, PortBuilder, UserinfoBuilder};
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::dict;
use crate::gen;
use crate::model::{self, Auth, Mode, Parts};
use crate::rfc::{self, Kind};

#[derive(Debug, Clone, PartialEq)]
enum Ui {
    Direct(String),
    Pair(String, String),
    PairOpt(String, Option<String>),
    Empty,
}
#[derive(Debug, Clone, PartialEq)]
enum Port {
    U8(u8),
    U16(u16),
    Text(String),
    Owned(String),
    Empty,
}
#[derive(Debug, Clone, PartialEq)]
enum Host {
    Text(String),
    Ip(IpAddr),
}
#[derive(Debug, Clone, PartialEq)]
enum Op {
    Scheme(String),
    UnsetScheme,
    Path(String),
    Userinfo(Ui),
    UnsetUserinfo,
    Host(Host),
    Port(Port),
    UnsetPort,
    UnsetAuthority,
    Query(String),
    UnsetQuery,
    Fragment(String),
    UnsetFragment,
    Normalize(bool),
}

#[derive(Debug, Clone, PartialEq)]
struct MAuth {
    ui: Ui,
    host: Host,
    port: Port,
}
#[derive(Debug, Clone, Default, PartialEq)]
struct State {
    scheme: Option<String>,
    auth: Option<MAuth>,
    path: String,
    query: Option<String>,
    fragment: Option<String>,
    normalize: bool,
}

impl State {
    fn auth(&mut self) -> &mut MAuth {
        self.auth.get_or_insert_with(|| MAuth { ui: Ui::Empty, host: Host::Text(String::new()), port: Port::Empty })
    }
    fn apply(&mut self, op: &Op) {
        match op.clone() {
            Op::Scheme(s) => self.scheme = Some(s),
            Op::UnsetScheme => self.scheme = None,
            Op::Path(s) => self.path = s,
            Op::Userinfo(u) => self.auth().ui = u,
            Op::UnsetUserinfo => self.auth().ui = Ui::Empty,
            Op::Host(h) => self.auth().host = h,
            Op::Port(p) => self.auth().port = p,
            Op::UnsetPort => self.auth().port = Port::Empty,
            Op::UnsetAuthority => self.auth = None,
            Op::Query(s) => self.query = Some(s),
            Op::UnsetQuery => self.query = None,
            Op::Fragment(s) => self.fragment = Some(s),
            Op::UnsetFragment => self.fragment = None,
            Op::Normalize(b) => self.normalize = b,
        }
    }
    /// The assignments that give this state.
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![Op::Path(self.path.clone()), Op::Normalize(self.normalize)];
        v.extend(self.scheme.clone().map(Op::Scheme));
        if let Some(a) = &self.auth {
            v.push(Op::Host(a.host.clone()));
            v.push(Op::Userinfo(a.ui.clone()));
            v.push(Op::Port(a.port.clone()));
        }
        v.extend(self.query.clone().map(Op::Query));
        v.extend(self.fragment.clone().map(Op::Fragment));
        v
    }

    /// The composed components, if each of them is valid.
    fn parts(&self, iri: bool) -> Option<Parts> {
        let ok = |k, s: &str| rfc::valid(k, iri, s);
        let authority = match &self.auth {
            None => None,
            Some(a) => {
                let userinfo = match &a.ui {
                    Ui::Empty => None,
                    Ui::Direct(s) => {
                        if !ok(Kind::UserInfo, s) {
                            return None;
                        }
                        Some(s.clone())
                    }
                    Ui::Pair(u, p) | Ui::PairOpt(u, Some(p)) => {
                        // The user ends at the first colon.
                        if !ok(Kind::User, u) || !ok(Kind::UserInfo, p) {
                            return None;
                        }
                        Some(format!("{u}:{p}"))
                    }
                    Ui::PairOpt(u, None) => {
                        if !ok(Kind::User, u) {
                            return None;
                        }
                        Some(u.clone())
                    }
                };
                let host = match &a.host {
                    Host::Text(h) => {
                        if !ok(Kind::Host, h) {
                            return None;
                        }
                        h.clone()
                    }
                    Host::Ip(IpAddr::V4(v)) => v.to_string(),
                    Host::Ip(IpAddr::V6(v)) => format!("[{v}]"),
                };
                let port = match &a.port {
                    Port::Empty => None,
                    Port::U8(n) => Some(n.to_string()),
                    Port::U16(n) => Some(n.to_string()),
                    Port::Text(s) | Port::Owned(s) => {
                        if !ok(Kind::Port, s) {
                            return None;
                        }
                        Some(s.clone())
                    }
                };
                Some(Auth { userinfo, host, port }.to_string())
            }
        };
        if !self.scheme.as_ref().map_or(true, |s| ok(Kind::Scheme, s))
            || !self.query.as_ref().map_or(true, |s| ok(Kind::Query, s))
            || !self.fragment.as_ref().map_or(true, |s| ok(Kind::Fragment, s))
            || !ok(Kind::PathAbEmpty, &format!("/{}", self.path))
        {
            return None;
        }
        Some(Parts {
            scheme: self.scheme.clone(),
            authority,
            path: self.path.clone(),
            query: self.query.clone(),
            fragment: self.fragment.clone(),
        })
    }

    /// The result, and whether it has no serialization by RFC 3986 alone.
    fn build(&self, kind: Kind, iri: bool) -> Option<(String, bool)> {
        match kind {
            Kind::Full if self.scheme.is_none() => return None,
            Kind::Absolute if self.scheme.is_none() || self.fragment.is_some() => return None,
            Kind::Relative if self.scheme.is_some() => return None,
            _ => {}
        }
        let p = self.parts(iri)?;
        let failed = p.authority.is_none() && model::remove_dot_segments(&p.path).starts_with("//");
        if !self.normalize {
            // The composition must mean its components.
            let s = p.to_string();
            return (rfc::valid(kind, iri, &s) && Parts::parse(&s) == p).then_some((s, failed));
        }
        let n = if p.scheme.is_some() || p.authority.is_some() || p.path.starts_with('/') {
            if p.authority.is_some() && !p.path.is_empty() && !p.path.starts_with('/') {
                return None;
            }
            model::normalize(&p, Mode::Default, iri).0
        } else {
            // A relative path depends on the base: its segments stay.
            if p.path.split('/').next().unwrap().contains(':') {
                return None;
            }
            let n = model::normalize(&Parts { path: String::new(), ..p.clone() }, Mode::Default, iri).0;
            Parts { path: model::pct_case(&p.path, iri), ..n }
        };
        Some((n.to_string(), failed))
    }
}

fn ui(u: &Ui) -> UserinfoBuilder<'_> {
    match u {
        Ui::Direct(s) if s.len() % 2 == 0 => s.into(),
        Ui::Direct(s) => s.as_str().into(),
        Ui::Pair(u, p) => (u.as_str(), p.as_str()).into(),
        Ui::PairOpt(u, p) => (u.as_str(), p.as_deref()).into(),
        Ui::Empty => UserinfoBuilder::default(),
    }
}
fn port(p: &Port) -> PortBuilder<'_> {
    match p {
        Port::U8(n) => (*n).into(),
        Port::U16(n) => (*n).into(),
        Port::Text(s) => s.as_str().into(),
        Port::Owned(s) => s.into(),
        Port::Empty => PortBuilder::default(),
    }
}
fn apply<'a>(b: &mut Builder<'a>, op: &'a Op) {
    match op {
        Op::Scheme(s) => b.scheme(s),
        Op::UnsetScheme => b.unset_scheme(),
        Op::Path(s) => b.path(s),
        Op::Userinfo(u) => b.userinfo(ui(u)),
        Op::UnsetUserinfo => b.unset_userinfo(),
        Op::Host(Host::Text(h)) => b.host(h),
        Op::Host(Host::Ip(ip)) => b.ip_address(*ip),
        Op::Port(p) => b.port(port(p)),
        Op::UnsetPort => b.unset_port(),
        Op::UnsetAuthority => b.unset_authority(),
        Op::Query(s) => b.query(s),
        Op::UnsetQuery => b.unset_query(),
        Op::Fragment(s) => b.fragment(s),
        Op::UnsetFragment => b.unset_fragment(),
        Op::Normalize(true) => b.normalize(),
        Op::Normalize(false) => b.unset_normalize(),
    }
}

fn one<'a, T>(b: &Builder<'a>, st: &State, kind: Kind, iri: bool, norm: fn(&Built<'a, T>) -> bool) -> R
where
    T: ?Sized + Buildable<'a>,
    Built<'a, T>: fmt::Display + ToDedicatedString + Clone,
    <Built<'a, T> as ToDedicatedString>::Target: AsRef<str> + From<Built<'a, T>> + for<'x> From<&'x Built<'a, T>>,
{
    let exp = st.build(kind, iri);
    match (b.clone().build::<T>(), exp) {
        (Err(_), None) => Ok(()),
        (Err(e), Some((x, _))) => fail("rejected", format!("{kind:?} (iri: {iri}) {st:?}: {e}, expected {x:?}")),
        (Ok(built), None) => fail("accepted", format!("{kind:?} (iri: {iri}) {st:?}: gives {built}")),
        (Ok(built), Some((x, failed))) => {
            let got = built.to_string();
            ensure_eq!(got, x, "result", "{kind:?} (iri: {iri}) {st:?}");
            ensure!(rfc::valid(kind, iri, &got), "invalid", "{kind:?} (iri: {iri}) {st:?} gives {got:?}");
            ensure_eq!(built.clone().to_string(), x, "clone", "{st:?}");
            ensure_eq!(built.to_dedicated_string().as_ref(), x, "to_dedicated_string", "{st:?}");
            if st.scheme.is_some() {
                ensure_eq!(norm(&built), !failed, "normalizable", "{st:?}");
            }
            let by_ref = <Built<'a, T> as ToDedicatedString>::Target::from(&built);
            ensure_eq!(by_ref.as_ref(), x, "from reference", "{st:?}");
            ensure_eq!(<Built<'a, T> as ToDedicatedString>::Target::from(built).as_ref(), x, "from value", "{st:?}");
            Ok(())
        }
    }
}

fn builds<S: Spec>(b: &Builder<'_>, st: &State, iri: bool) -> R {
    one::<RiReferenceStr<S>>(b, st, Kind::Reference, iri, |x| x.ensure_rfc3986_normalizable().is_ok())?;
    one::<RiStr<S>>(b, st, Kind::Full, iri, |x| x.ensure_rfc3986_normalizable().is_ok())?;
    one::<RiAbsoluteStr<S>>(b, st, Kind::Absolute, iri, |x| x.ensure_rfc3986_normalizable().is_ok())?;
    one::<RiRelativeStr<S>>(b, st, Kind::Relative, iri, |x| x.ensure_rfc3986_normalizable().is_ok())
}

fn damage(src: &mut Src, s: String) -> String {
    if src.chance(1, 15) {
        gen::mutate(src, &s, 1)
    } else {
        s
    }
}

fn gen_op(src: &mut Src, iri: bool, st: &State) -> Op {
    let has_auth = st.auth.is_some();
    loop {
        let op = match src.weighted(&[4, 1, 8, 4, 1, 4, 4, 1, 2, 3, 1, 3, 1, 3]) {
            0 => Op::Scheme(gen::scheme(src)),
            1 => Op::UnsetScheme,
            2 => Op::Path(match src.weighted(&[3, 5, 4, 3]) {
                0 => gen::dotty_path(src),
                1 => gen::path(src, iri),
                2 => src
                    .pick(&["", "/", "//", "//a", "a:b", "./a:b", "/..//a", "/.//a", "a/..//b", "..", "%3a", "a%3ab/c:d", "/a/..", "/..", "."])
                    .to_string(),
                _ => gen::path_for(src, iri, st.scheme.is_some(), has_auth),
            }),
            3 => {
                let u = damage_ui(src, iri);
                Op::Userinfo(u)
            }
            // These two on a builder without authority are not specified.
            4 if has_auth => Op::UnsetUserinfo,
            4 => continue_simple(),
            5 => Op::Host(match src.weighted(&[8, 2, 1]) {
                0 => Host::Text(gen::host(src, iri)),
                1 => Host::Ip(match src.idx(2) {
                    0 => IpAddr::from([src.below(256) as u8, 0, src.below(256) as u8, 1]),
                    _ => {
                        let g: Vec<u16> = (0..8).map(|_| if src.bool() { 0 } else { src.below(0x10000) as u16 }).collect();
                        IpAddr::from([g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]])
                    }
                }),
                _ => Host::Text(gen::host_any(src, iri)),
            }),
            6 => Op::Port(match src.weighted(&[2, 2, 4, 2, 1]) {
                0 => Port::U8(src.below(256) as u8),
                1 => Port::U16(match dict::wanted(src).then(|| dict::number_up_to(src, 0xFFFF)) {
                    Some(Some(n)) => n as u16,
                    _ => src.below(65536) as u16,
                }),
                2 => Port::Text(gen::port(src)),
                3 => {
                    let s = gen::port(src);
                    Port::Owned(damage(src, s))
                }
                _ => Port::Empty,
            }),
            7 if has_auth => Op::UnsetPort,
            7 => continue_simple(),
            8 => Op::UnsetAuthority,
            9 => Op::Query(gen::query(src, iri)),
            10 => Op::UnsetQuery,
            11 => Op::Fragment(gen::fragment(src, iri)),
            12 => Op::UnsetFragment,
            _ => Op::Normalize(src.chance(2, 3)),
        };
        return match op {
            Op::Scheme(s) => Op::Scheme(damage(src, s)),
            Op::Path(s) => Op::Path(damage(src, s)),
            Op::Query(s) => Op::Query(damage(src, s)),
            Op::Fragment(s) => Op::Fragment(damage(src, s)),
            o => o,
        };
    }
}
fn continue_simple() -> Op {
    Op::UnsetAuthority
}
fn damage_ui(src: &mut Src, iri: bool) -> Ui {
    match src.weighted(&[4, 3, 3, 1]) {
        0 => {
            let s = gen::userinfo(src, iri);
            Ui::Direct(damage(src, s))
        }
        k => {
            let u = if src.chance(1, 12) { gen::userinfo(src, iri) } else { gen::text(src, iri, "", 4, false) };
            let p = gen::userinfo(src, iri);
            let p = damage(src, p);
            match k {
                1 => Ui::Pair(u, p),
                2 => Ui::PairOpt(u, src.bool().then_some(p)),
                _ => Ui::Empty,
            }
        }
    }
}

/// All ports of a block of 256.
fn ports(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("ports {}..={}", b * 256, b * 256 + 255));
    for p in (b * 256..b * 256 + 256).map(|p| p as u16) {
        let mut builder = Builder::new();
        builder.scheme("s");
        builder.host("h");
        builder.port(p);
        for n in [false, true] {
            let expected = format!("s://h:{p}");
            let got = builder.clone().build::<UriStr>().map(|x| x.to_string()).ok();
            ensure_eq!(got, Some(expected), "port", "{p} (normalize: {n})");
            builder.normalize();
        }
        if let Ok(p) = u8::try_from(p) {
            let mut builder = Builder::new();
            builder.port(p);
            let got = builder.build::<IriRelativeStr>().map(|x| x.to_string()).ok();
            ensure_eq!(got, Some(format!("//:{p}")), "port", "{p} as u8");
        }
    }
    cx.mark(true, "block of 256 ports");
    Ok(())
}

const E_PATH: &[&str] = &["/", "a", ".", ":"];

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (start, ops, _iri): (Option<String>, Vec<Op>, bool) = match src.weighted(&[100, 1400, 500, 1]) {
        3 => {
            let b = src.below(256);
            return ports(b, cx);
        }
        0 => {
            // Small scope: presence of each component, all short paths.
            let bits = src.below(32);
            let p = gen::over(src, E_PATH, 7);
            let mut v = vec![Op::Path(p), Op::Normalize(bits & 1 != 0)];
            if bits & 2 != 0 {
                v.push(Op::Scheme("S".into()));
            }
            match bits >> 2 & 3 {
                0 => {}
                1 => v.push(Op::Host(Host::Text("H".into()))),
                2 => v.push(Op::Userinfo(Ui::PairOpt(String::new(), None))),
                _ => v.push(Op::Port(Port::Text(String::new()))),
            }
            if bits & 16 != 0 {
                v.push(Op::Fragment("f".into()));
            }
            (None, v, false)
        }
        1 => {
            let iri = src.bool();
            let n = match src.weighted(&[3, 1]) {
                0 => src.range(1, 7),
                _ => src.range(6, 20),
            };
            let mut st = State::default();
            let mut v = Vec::new();
            for _ in 0..n {
                let op = gen_op(src, iri, &st);
                st.apply(&op);
                v.push(op);
            }
            (None, v, iri)
        }
        _ => {
            let iri = src.bool();
            let s = gen::valid_ref(src, iri, Kind::Reference);
            let mut st = state_of(&s);
            let mut v = Vec::new();
            for _ in 0..src.range(0, 3) {
                let op = gen_op(src, iri, &st);
                st.apply(&op);
                v.push(op);
            }
            (Some(s), v, iri)
        }
    };
    if let Some(s) = &start {
        cx.describe(format_args!("from {s:?}"));
    }
    cx.describe(format_args!("{ops:?}"));

    let mut st = start.as_deref().map_or_else(State::default, state_of);
    let reference;
    let mut b = match &start {
        None => Builder::new(),
        Some(s) => {
            reference = match RiReferenceStr::<IriSpec>::new(s) {
                Ok(r) => r,
                Err(_) => return fail("rejected", s.clone()),
            };
            let b = Builder::from(reference);
            // Building from a reference gives it back.
            ensure_eq!(b.clone().build::<IriReferenceStr>().map(|x| x.to_string()).ok(), Some(s.clone()), "rebuild", "{s:?}");
            if let Ok(u) = UriReferenceString::try_from(s.as_str()) {
                let got = Builder::from(&u).build::<UriReferenceStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "URI {s:?}");
            }
            if let Ok(u) = IriStr::new(s) {
                let got = Builder::from(u).build::<IriStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "IRI {s:?}");
                let got = Builder::from(&u.to_owned()).build::<IriStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "IRI {s:?} (owned)");
            }
            if let Ok(u) = IriRelativeStr::new(s) {
                let got = Builder::from(u).build::<IriRelativeStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "relative {s:?}");
                let got = Builder::from(&u.to_owned()).build::<IriRelativeStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "relative {s:?} (owned)");
            }
            if let Ok(u) = IriAbsoluteStr::new(s) {
                let got = Builder::from(u).build::<IriAbsoluteStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "absolute {s:?}");
                let got = Builder::from(&u.to_owned()).build::<IriAbsoluteStr>().map(|x| x.to_string()).ok();
                ensure_eq!(got, Some(s.clone()), "rebuild", "absolute {s:?} (owned)");
            }
            b
        }
    };
    let mut inherited = b.clone();
    for (i, op) in ops.iter().enumerate() {
        apply(&mut b, op);
        st.apply(op);
        if i == ops.len() / 2 {
            inherited = b.clone();
        } else if i > ops.len() / 2 {
            apply(&mut inherited, op);
        }
    }
    let len: usize = st.ops().iter().map(|o| format!("{o:?}").chars().count()).sum();
    if len > 420 {
        cx.label("too long (no check)");
        return Ok(());
    }
    builds::<IriSpec>(&b, &st, true)?;
    builds::<UriSpec>(&b, &st, false)?;
    // A clone taken midway and continued is the same builder.
    if ops.len() > 1 {
        one::<IriReferenceStr>(&inherited, &st, Kind::Reference, true, |x| x.ensure_rfc3986_normalizable().is_ok())?;
    }
    // Only the last assignments count, in whichever order.
    let mut last = st.ops();
    for i in (1..last.len()).rev() {
        last.swap(i, src.idx(i + 1));
    }
    let mut fresh = Builder::new();
    for op in &last {
        apply(&mut fresh, op);
    }
    one::<IriReferenceStr>(&fresh, &st, Kind::Reference, true, |x| x.ensure_rfc3986_normalizable().is_ok())?;

    let r = st.build(Kind::Reference, true);
    let valid = st.parts(true).is_some();
    cx.mark(r.is_some() && st.normalize, "built with normalization");
    cx.mark(r.is_some() && ops.len() > 3, "built by more than 3 calls");
    cx.mark(valid && r.is_none(), "valid components, no valid composition");
    cx.mark(!valid, "invalid component");
    cx.mark(start.is_some() && !ops.is_empty(), "edited reference");
    if let (Some((s, failed)), true) = (&r, st.normalize) {
        cx.mark(*failed && s.contains("/.//"), "guarded by /.");
    }
    if r.is_some() && valid && st.build(Kind::Reference, false).is_none() {
        cx.label("IRI only");
    }
    Ok(())
}

/// The state of a builder made from a reference.
fn state_of(s: &str) -> State {
    let p = Parts::parse(s);
    State {
        auth: p.auth().map(|a| MAuth {
            ui: a.userinfo.map_or(Ui::Empty, Ui::Direct),
            host: Host::Text(a.host),
            port: a.port.map_or(Port::Empty, Port::Text),
        }),
        scheme: p.scheme,
        path: p.path,
        query: p.query,
        fragment: p.fragment,
        normalize: false,
    }
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 7 } else { 5 };
    let ports = (0..256u64).map(|b| vec![2000, b]);
    Box::new(ports.chain((0..32u64).flat_map(move |b| gen::all_over(vec![0, b], E_PATH.len() as u64, n))))
}

pub static PROP: Prop = Prop {
    id: "C10",
    quick: 450_000,
    thorough: 3_000_000,
    rule: "Each case is one history of up to 20 builder calls (from nothing or from a reference), built as all four kinds in both \
           repertoires (all presences of the components with all paths of up to 5 symbols, and all ports, enumerated first). Non-trivial: built with \
           normalization or by more than 3 calls, or an invalid component, or valid components without a valid composition.",
    run,
    enumerate,
    must_reach: &[
        ("built with normalization", 1000),
        ("built by more than 3 calls", 1500),
        ("valid components, no valid composition", 1000),
        ("invalid component", 180),
        ("edited reference", 750),
        ("guarded by /.", 30),
        ("IRI only", 540),
    ],
    assumptions: &[
        "unset_userinfo and unset_port are called only while there is an authority (their effect without one is not specified)",
    ],
};
