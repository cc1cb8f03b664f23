//! What the crate says about one request.

use std::fmt::{Display, Write as _};
use std::ops::ControlFlow;

use iri_string::build::{Buildable, Builder, Built};
use iri_string::convert::MappedToUri;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, ListVisitor, Visitor};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;

macro_rules! put {
    ($o:expr, $name:expr, $v:expr) => {{
        let _ = write!($o, "{}={:?};", $name, $v);
    }};
}

#[derive(Default)]
pub struct Out {
    pub core: String,
    pub alloc: String,
}

fn slice_of(d: &dyn Display) -> Option<String> {
    let mut buf = [0xFFu8; 2048];
    write_to_slice(&mut buf, &d).ok().map(str::to_string)
}

macro_rules! accessors {
    ($v:expr, $o:expr; $($m:ident),*) => { $( put!($o, stringify!($m), $v.$m()); )* };
}

fn text<S: Spec>(s: &str, alt: &str, out: &mut Out) {
    let o = &mut out.core;
    put!(o, "iri", validate::iri::<S>(s).is_ok());
    put!(o, "ref", validate::iri_reference::<S>(s).is_ok());
    put!(o, "abs", validate::absolute_iri::<S>(s).is_ok());
    put!(o, "rel", validate::relative_ref::<S>(s).is_ok());
    put!(o, "scheme", validate::scheme(s).is_ok());
    put!(o, "authority", validate::authority::<S>(s).is_ok());
    put!(o, "host", validate::host::<S>(s).is_ok());
    put!(o, "reg_name", validate::reg_name::<S>(s).is_ok());
    put!(o, "port", validate::port(s).is_ok());
    put!(o, "userinfo", validate::userinfo::<S>(s).is_ok());
    put!(o, "path", validate::path::<S>(s).is_ok());
    put!(o, "segment", validate::path_segment::<S>(s).is_ok());
    put!(o, "query", validate::query::<S>(s).is_ok());
    put!(o, "fragment", validate::fragment::<S>(s).is_ok());
    put!(o, "Q", RiQueryStr::<S>::from_prefixed(s).ok().map(|v| v.as_str()));
    put!(o, "F", RiFragmentStr::<S>::from_prefixed(s).ok().map(|v| v.as_str()));
    macro_rules! common {
        ($v:expr) => {{
            let v = $v;
            if let Some(a) = v.authority_components() {
                accessors!(a, o; userinfo, host, reg_name, port);
            }
            accessors!(v, o; authority_str, path_str, query_str, query);
            put!(o, "masked", v.mask_password().to_string());
            put!(o, "masked in slice", slice_of(&v.mask_password()));
            put!(o, "masked debug", v.mask_password());
            put!(o, "replaced", v.mask_password().replace_password(alt).to_string());
            put!(o, "uri", MappedToUri::from(v).to_string());
            put!(o, "uri in slice", slice_of(&MappedToUri::from(v)));
            let mut b = Builder::from(v);
            builds::<S>(&b, o);
            b.normalize();
            builds::<S>(&b, o);
            #[cfg(feature = "alloc")]
            {
                use iri_string::format::ToDedicatedString;
                let a = &mut out.alloc;
                put!(a, "owned masked", v.mask_password().to_dedicated_string());
                put!(a, "owned uri", MappedToUri::from(v).to_dedicated_string());
                let mut w = v.to_owned();
                w.remove_nonempty_password_inline();
                put!(a, "nonempty password removed", w);
                w.remove_password_inline();
                put!(a, "password removed", w);
                let mut w = v.to_owned();
                put!(a, "host", w.replace_host(alt).map(|s| s.to_string()));
                put!(a, "host", w);
                let mut w = v.to_owned();
                put!(a, "reg-name", w.replace_host_reg_name(alt).map(|s| s.to_string()));
                put!(a, "reg-name", w);
            }
        }};
    }
    macro_rules! fragments {
        ($v:expr) => {{
            accessors!($v, o; fragment_str, fragment);
            #[cfg(feature = "alloc")]
            {
                let mut w = $v.to_owned();
                w.set_fragment(RiFragmentStr::new(alt).ok());
                put!(out.alloc, "fragment", w);
            }
        }};
    }
    macro_rules! normal {
        ($v:expr) => {{
            let v = $v;
            put!(o, "normalizable", v.ensure_rfc3986_normalizable().is_ok());
            accessors!(v, o; is_normalized, is_normalized_rfc3986, is_normalized_but_authorityless_relative_path_preserved);
            put!(o, "normalized", v.normalize().to_string());
            put!(o, "normalized in slice", slice_of(&v.normalize()));
            put!(o, "normalized (preserving)", v.normalize_but_preserve_authorityless_relative_path().to_string());
            #[cfg(feature = "alloc")]
            {
                use iri_string::format::ToDedicatedString;
                put!(out.alloc, "owned normalized", v.normalize().to_dedicated_string());
            }
        }};
    }
    let fixed = "b://u@h:1/p/q/r?x#y";
    if let Ok(v) = RiReferenceStr::<S>::new(s) {
        put!(o, "reference", v);
        put!(o, "scheme", v.scheme_str());
        put!(o, "to_iri", v.to_iri().map_err(|r| r.as_str()).map(|i| i.as_str()));
        common!(v);
        fragments!(v);
        let base = RiStr::<S>::new(fixed).unwrap();
        #[cfg(feature = "alloc")]
        {
            let w = v.to_owned();
            put!(out.alloc, "as full", w.clone().into_iri().map_err(|e| e.to_string()));
            put!(out.alloc, "as relative", w.into_relative_iri().map_err(|e| e.to_string()));
        }
        put!(o, "resolved", v.resolve_against(base.to_absolute()).to_string());
    }
    if let Ok(v) = RiStr::<S>::new(s) {
        put!(o, "full", v);
        put!(o, "scheme", v.scheme_str());
        put!(o, "split", v.to_absolute_and_fragment());
        #[cfg(feature = "alloc")]
        {
            let w = v.to_owned();
            put!(out.alloc, "absolute", w.clone().into_absolute());
            put!(out.alloc, "split", w.into_absolute_and_fragment());
        }
        common!(v);
        fragments!(v);
        normal!(v);
    }
    if let Ok(v) = RiAbsoluteStr::<S>::new(s) {
        put!(o, "absolute", v);
        put!(o, "scheme", v.scheme_str());
        common!(v);
        normal!(v);
    }
    if let Ok(v) = RiRelativeStr::<S>::new(s) {
        put!(o, "relative", v);
        common!(v);
        fragments!(v);
    }
    for (name, d) in [
        ("reg-name", &PercentEncoded::<_, S>::from_reg_name(s) as &dyn Display),
        ("user", &PercentEncoded::<_, S>::from_user(s)),
        ("password", &PercentEncoded::<_, S>::from_password(s)),
        ("segment", &PercentEncoded::<_, S>::from_path_segment(s)),
        ("path", &PercentEncoded::<_, S>::from_path(s)),
        ("query", &PercentEncoded::<_, S>::from_query(s)),
        ("fragment", &PercentEncoded::<_, S>::from_fragment(s)),
        ("unreserve", &PercentEncoded::<_, S>::unreserve(s)),
        ("characters", &PercentEncoded::<_, S>::characters(s)),
    ] {
        put!(o, name, d.to_string());
    }
    // Adjacent plain pieces are one piece.
    let mut frags: Vec<(Vec<u8>, bool)> = Vec::new();
    for f in decode_whatwg_bytes(s.as_bytes()).bytes_fragments() {
        match f {
            DecodedFragment::Direct(x) => match frags.last_mut() {
                Some((v, true)) => v.extend(x),
                _ => frags.push((x.to_vec(), true)),
            },
            DecodedFragment::DecodedByte(x) => frags.push((vec![x], false)),
            DecodedFragment::StrayPercent => frags.push((vec![], false)),
        }
    }
    put!(o, "decoded", frags);
    put!(o, "nothing to decode", decode_whatwg_bytes(s.as_bytes()).to_bytes());
    #[cfg(feature = "alloc")]
    put!(out.alloc, "decoded", decode_whatwg_bytes(s.as_bytes()).into_bytes());
}

fn build_as<'a, T>(b: &Builder<'a>, o: &mut String)
where
    T: ?Sized + Buildable<'a>,
    Built<'a, T>: Display,
{
    match b.clone().build::<T>() {
        Ok(v) => put!(o, "built", v.to_string()),
        Err(_) => put!(o, "built", ()),
    }
}
fn builds<S: Spec>(b: &Builder<'_>, o: &mut String) {
    build_as::<RiReferenceStr<S>>(b, o);
    build_as::<RiStr<S>>(b, o);
    build_as::<RiAbsoluteStr<S>>(b, o);
    build_as::<RiRelativeStr<S>>(b, o);
}

/// Scheme, userinfo, host, port, path, query, fragment; those that start with `-` are absent.
fn compose<S: Spec>(f: &[String], o: &mut String) {
    let part = |i: usize| f[i].strip_prefix('+');
    let mut b = Builder::new();
    if let Some(v) = part(0) {
        b.scheme(v);
    }
    if let Some(v) = part(1) {
        b.userinfo(v);
    }
    if let Some(v) = part(2) {
        b.host(v);
    }
    if let Some(v) = part(3) {
        b.port(v);
    }
    if let Some(v) = part(4) {
        b.path(v);
    }
    if let Some(v) = part(5) {
        b.query(v);
    }
    if let Some(v) = part(6) {
        b.fragment(v);
    }
    builds::<S>(&b, o);
    b.normalize();
    builds::<S>(&b, o);
}

fn resolve<S: Spec>(base: &str, s: &str, out: &mut Out) {
    let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(base), RiReferenceStr::<S>::new(s)) else {
        return;
    };
    let o = &mut out.core;
    let res = FixedBaseResolver::new(b);
    accessors!(res, o; scheme_str, authority_str, path_str, query_str);
    for (i, d) in [
        res.resolve(r),
        res.resolve(r).and_normalize(),
        res.resolve(r).and_normalize_but_preserve_authorityless_relative_path(),
    ]
    .into_iter()
    .enumerate()
    {
        put!(o, i, d.to_string());
        put!(o, i, slice_of(&d));
        put!(o, i, d.ensure_rfc3986_normalizable().is_ok());
        #[cfg(feature = "alloc")]
        {
            use iri_string::format::ToDedicatedString;
            put!(out.alloc, i, d.to_dedicated_string());
        }
    }
}

enum Val {
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
struct Ctx(Vec<(String, Val)>);
impl Context for Ctx {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        let Some((_, v)) = self.0.iter().rev().find(|(k, _)| k == visitor.var_name().as_str()) else {
            return visitor.visit_undefined();
        };
        match v {
            Val::Str(s) => visitor.visit_string(s),
            Val::List(l) => {
                let mut v = visitor.visit_list();
                for s in l {
                    if let ControlFlow::Break(r) = v.visit_item(s) {
                        return r;
                    }
                }
                v.finish()
            }
            Val::Assoc(l) => visitor.visit_assoc().visit_entries_and_finish(l.iter().map(|(k, v)| (k, v))),
        }
    }
}

/// The template, then for each value its type, its name, the number of texts and the texts.
fn template<S: Spec>(f: &[String], out: &mut Out) {
    let o = &mut out.core;
    let t = match UriTemplateStr::new(&f[0]) {
        Ok(t) => t,
        Err(_) => return put!(o, "template", ()),
    };
    let mut ctx = Ctx(Vec::new());
    let mut rest = &f[1..];
    while let [ty, name, n, tail @ ..] = rest {
        let (texts, tail) = tail.split_at(n.parse().unwrap());
        rest = tail;
        let v = match ty.as_str() {
            "s" => Val::Str(texts[0].clone()),
            "l" => Val::List(texts.to_vec()),
            _ => Val::Assoc(texts.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()),
        };
        ctx.0.push((name.clone(), v));
    }
    put!(o, "variables", t.variables().map(|v| v.as_str()).collect::<Vec<_>>());
    match t.expand::<S, _>(&ctx) {
        Ok(e) => {
            put!(o, "expanded", e.to_string());
            put!(o, "expanded in slice", slice_of(&e));
            #[cfg(feature = "alloc")]
            put!(out.alloc, "typed", RiReferenceString::<S>::try_from(e).map_err(|_| ()));
        }
        Err(_) => put!(o, "expanded", ()),
    }
    struct D<'a>(&'a Ctx);
    impl iri_string::template::context::DynamicContext for D<'_> {
        fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
            self.0.visit(v)
        }
    }
    let mut w = String::new();
    put!(o, "dynamic", t.expand_dynamic::<S, _, _>(&mut w, &mut D(&ctx)).is_ok());
    // What a failed expansion leaves behind is not specified.
    put!(o, "dynamic", t.expand::<S, _>(&ctx).is_ok().then_some(&w));
    #[cfg(feature = "alloc")]
    {
        use iri_string::template::simple_context::{SimpleContext, Value};
        let mut c = SimpleContext::new();
        for (k, v) in ctx.0 {
            match v {
                Val::Str(s) => c.insert(k, s),
                Val::List(l) => c.insert(k, Value::List(l)),
                Val::Assoc(l) => c.insert(k, Value::Assoc(l)),
            };
        }
        put!(out.alloc, "simple", t.expand::<S, _>(&c).map(|e| e.to_string()).map_err(|_| ()));
    }
}

pub fn unhex(s: &str) -> String {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    String::from_utf8(b.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()).unwrap()
}

/// Conversions between the repertoires.
fn convert(s: &str, out: &mut Out) {
    macro_rules! conversions {
        ($($name:literal: $iri:ident $uri:ident $owned:ident $owned_uri:ident;)*) => {$(
            if let Ok(v) = $iri::new(s) {
                put!(out.core, $name, v.as_uri());
                #[cfg(feature = "alloc")]
                {
                    let a = &mut out.alloc;
                    put!(a, "encoded", v.encode_to_uri());
                    let mut w: $owned = v.to_owned();
                    put!(a, "tried", w.clone().try_into_uri().map_err(|v| v.to_string()));
                    put!(a, "encoded", w.clone().encode_into_uri());
                    w.encode_to_uri_inline();
                    put!(a, "inline", w);
                    let u: $owned_uri = w.try_into_uri().unwrap();
                    put!(a, "back", $owned::from(u));
                }
            }
        )*};
    }
    conversions! {
        "reference": IriReferenceStr UriReferenceStr IriReferenceString UriReferenceString;
        "full": IriStr UriStr IriString UriString;
        "absolute": IriAbsoluteStr UriAbsoluteStr IriAbsoluteString UriAbsoluteString;
        "relative": IriRelativeStr UriRelativeStr IriRelativeString UriRelativeString;
        "query": IriQueryStr UriQueryStr IriQueryString UriQueryString;
        "fragment": IriFragmentStr UriFragmentStr IriFragmentString UriFragmentString;
    }
}

pub fn run_as<S: Spec>(kind: &str, f: &[String], out: &mut Out) {
    match kind {
        "text" => text::<S>(&f[0], &f[1], out),
        "resolve" => resolve::<S>(&f[0], &f[1], out),
        "compose" => compose::<S>(f, &mut out.core),
        "template" => template::<S>(f, out),
        _ => panic!("unknown request"),
    }
}

/// Answers one request.
pub fn run(kind: &str, f: &[String], out: &mut Out) {
    run_as::<IriSpec>(kind, f, out);
    out.core.push_str("as URI:");
    run_as::<UriSpec>(kind, f, out);
    if kind == "text" {
        convert(&f[0], out);
    }
}
