//! C24: what is documented to work without a heap does not allocate, parts are views into the
//! text they are parts of, and conversions keep the memory.

use std::borrow::Cow;
use std::hint::black_box;
use std::ops::ControlFlow;

use iri_string::build::Builder;
use iri_string::components::AuthorityComponents;
use iri_string::convert::MappedToUri;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, ListVisitor, Visitor};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use iri_string::validate;

use crate::engine::*;
use crate::gen;
use crate::rfc::Kind;
use crate::tplmodel as tm;

/// Runs the operation, which must not touch the heap.
fn free<T>(what: &str, on: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let (r, n) = allocations(f);
    ensure!(n == 0, "allocates", "{what} of {on:?}: {n} times");
    Ok(r)
}

/// The part is a piece of the memory of the whole.
fn view(whole: &str, part: Option<&str>, what: &str) -> R {
    let Some(part) = part else { return Ok(()) };
    let (w, p) = (whole.as_bytes().as_ptr_range(), part.as_bytes().as_ptr_range());
    ensure!(part.is_empty() || w.start <= p.start && p.end <= w.end, "part elsewhere", "{what} of {whole:?}: {part:?}");
    Ok(())
}
/// The very same memory.
fn same(a: &str, b: &str, what: &str) -> R {
    ensure!(a.as_ptr() == b.as_ptr() && a.len() == b.len(), "not the same memory", "{what} of {a:?}: {b:?}");
    Ok(())
}

/// A copy with or without spare capacity.
fn roomy(s: &str) -> String {
    let mut v = String::with_capacity(s.len() + s.len() % 3 * 7);
    v.push_str(s);
    v
}

/// The same for what is valid.
trait Roomy: ToOwned {
    fn roomy(&self) -> Self::Owned;
}
impl<T: ?Sized + ToOwned + AsRef<str>> Roomy for T
where
    T::Owned: TryFrom<String>,
{
    fn roomy(&self) -> T::Owned {
        T::Owned::try_from(roomy(self.as_ref())).ok().unwrap()
    }
}

/// An owned conversion, by which the buffer is kept.
fn keep<A, B: AsRef<str>>(from: A, text: impl Fn(&A) -> &str, to: impl FnOnce(A) -> B, what: &str) -> Result<B, Fail> {
    let (ptr, old) = (text(&from).as_ptr(), text(&from).to_string());
    let r = free(what, &old, || to(from))?;
    ensure_eq!(r.as_ref(), old, "text kept", "{what}");
    ensure!(r.as_ref().as_ptr() == ptr, "buffer not kept", "{what} of {old:?}");
    Ok(r)
}

fn validators<S: Spec>(s: &str) -> R {
    let all: [(&str, fn(&str) -> Result<(), validate::Error>); 14] = [
        ("iri", validate::iri::<S>),
        ("iri_reference", validate::iri_reference::<S>),
        ("absolute_iri", validate::absolute_iri::<S>),
        ("relative_ref", validate::relative_ref::<S>),
        ("scheme", validate::scheme),
        ("authority", validate::authority::<S>),
        ("host", validate::host::<S>),
        ("reg_name", validate::reg_name::<S>),
        ("port", validate::port),
        ("userinfo", validate::userinfo::<S>),
        ("path", validate::path::<S>),
        ("path_segment", validate::path_segment::<S>),
        ("query", validate::query::<S>),
        ("fragment", validate::fragment::<S>),
    ];
    for (n, f) in all {
        let _ = free(n, s, || f(s))?;
    }
    Ok(())
}

fn authority<S: Spec>(r: &RiReferenceStr<S>) -> R {
    let s = r.as_str();
    let a = free("authority components", s, || r.authority_components())?;
    let b = free("authority components", s, || AuthorityComponents::from_iri(r))?;
    for a in [a, b].into_iter().flatten() {
        let parts = free("authority parts", s, || [a.userinfo(), Some(a.host()), a.reg_name(), a.port()])?;
        for p in parts {
            view(s, p, "authority part")?;
        }
    }
    Ok(())
}

macro_rules! kind {
    ($s:expr, $n:expr, $Str:ident, $String:ident, $S:ident) => {{
        let s: &str = $s;
        let what = concat!(stringify!($Str), "<", stringify!($S), ">");
        let a = free(what, s, || $Str::<$S>::new(s))?;
        let b = free(what, s, || <&$Str<$S>>::try_from(s.as_bytes()))?;
        let c = free(what, s, || <&$Str<$S>>::try_from(s))?;
        if let (Ok(a), Ok(b), Ok(c)) = (a, b, c) {
            $n += 1;
            for v in [a, b, c] {
                same(s, v.as_str(), what)?;
                same(s, v.as_ref(), what)?;
            }
            free("comparison", s, || black_box((a == b, a < c, a.cmp(b), a == s, a.len(), a.is_empty(), c <= b)))?;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            free("hash", s, || std::hash::Hash::hash(a, &mut h))?;
            let cow = free("copy on write", s, || Cow::from(a))?;
            same(s, cow.as_str(), "copy on write")?;
        }
        // Owned values: the buffer is that of the string, whatever happens.
        let owned = roomy(s);
        let p = owned.as_ptr();
        match free("owned", s, || $String::<$S>::try_from(owned))? {
            Ok(v) => {
                let v: String = keep(v, |v| v.as_str(), String::from, "into string")?;
                ensure!(v.as_ptr() == p, "buffer not kept", "{s:?} as {what}");
            }
            Err(e) => {
                let v = free("into source", s, || e.into_source())?;
                ensure!(v.as_ptr() == p && v == s, "buffer not kept", "{s:?} refused as {what}");
            }
        }
    }};
}

/// What the buffer may hold: longer outputs are cut, which is of no interest here.
struct Buf(Vec<u8>);
impl Buf {
    fn write(&mut self, what: &str, on: &str, d: &impl std::fmt::Display) -> R {
        let _ = free(what, on, || write_to_slice(&mut self.0, d).map(str::len))?;
        Ok(())
    }
}

macro_rules! parts {
    ($v:expr, $s:expr, [$($m:ident),*]) => {{
        $(
            let p = free(stringify!($m), $s, || $v.$m())?;
            let p: Option<&str> = Into::<Option<&str>>::into(p);
            view($s, p, stringify!($m))?;
        )*
    }};
}

/// Into a narrower type, or not.
macro_rules! narrow {
    ($r:expr, $Str:ident $String:ident $S:ident) => {{
        let n = concat!("into ", stringify!($String));
        if let Ok(v) = free(n, $r.as_str(), || <&$Str<$S>>::try_from($r))? {
            same($r.as_str(), v.as_str(), n)?;
            keep($r.roomy(), |v| v.as_str(), |v| $String::<$S>::try_from(v).unwrap(), n)?;
        } else {
            keep($r.roomy(), |v| v.as_str(), |v| $String::<$S>::try_from(v).unwrap_err().into_source(), n)?;
        }
    }};
}

macro_rules! spec {
    ($s:expr, $base:expr, $buf:expr, $n:expr, $S:ident, $cx:expr) => {{
        let s: &str = $s;
        validators::<$S>(s)?;
        kind!(s, $n, RiReferenceStr, RiReferenceString, $S);
        kind!(s, $n, RiStr, RiString, $S);
        kind!(s, $n, RiAbsoluteStr, RiAbsoluteString, $S);
        kind!(s, $n, RiRelativeStr, RiRelativeString, $S);
        kind!(s, $n, RiQueryStr, RiQueryString, $S);
        kind!(s, $n, RiFragmentStr, RiFragmentString, $S);
        if let Ok(r) = RiReferenceStr::<$S>::new(s) {
            parts!(r, s, [scheme_str, authority_str, path_str, query_str, fragment_str]);
            let (q, f) = free("query and fragment", s, || (r.query(), r.fragment()))?;
            view(s, q.map(|v| v.as_str()), "query")?;
            view(s, f.map(|v| v.as_str()), "fragment")?;
            authority(r)?;
            $buf.write("masked", s, &r.mask_password())?;
            $buf.write("replaced password", s, &r.mask_password().replace_password("****"))?;
            $buf.write("replaced password", s, &r.mask_password().replace_password_with(|p| p.len()))?;
            match free("to_iri", s, || r.to_iri())? {
                Ok(v) => same(s, v.as_str(), "to_iri")?,
                Err(v) => same(s, v.as_str(), "to_iri")?,
            }
            match free("to_relative_iri", s, || r.to_relative_iri())? {
                Ok(v) => same(s, v.as_str(), "to_relative_iri")?,
                Err(v) => same(s, v.as_str(), "to_relative_iri")?,
            }
            match RiReferenceString::<$S>::try_from(roomy(s)).unwrap() {
                o if r.to_iri().is_ok() => drop(keep(o, |v| v.as_str(), |v| v.into_iri().unwrap(), "into_iri")?),
                o => drop(keep(o, |v| v.as_str(), |v| v.into_iri().unwrap_err(), "into_iri")?),
            }
            match RiReferenceString::<$S>::try_from(roomy(s)).unwrap() {
                o if r.to_iri().is_ok() => drop(keep(o, |v| v.as_str(), |v| v.into_relative_iri().unwrap_err(), "into_relative_iri")?),
                o => drop(keep(o, |v| v.as_str(), |v| v.into_relative_iri().unwrap(), "into_relative_iri")?),
            }
            narrow!(r, RiStr RiString $S);
            narrow!(r, RiAbsoluteStr RiAbsoluteString $S);
            narrow!(r, RiRelativeStr RiRelativeString $S);
            if let Ok(base) = RiAbsoluteStr::<$S>::new($base) {
                $cx.label("resolved against a base");
                let res = free("resolver", $base, || FixedBaseResolver::new(base))?;
                same($base, res.base().as_str(), "base")?;
                parts!(res, $base, [scheme_str, authority_str, path_str, query_str]);
                let mut t = free("resolve", s, || res.resolve(r))?;
                $buf.write("resolved", s, &t)?;
                let _ = free("ensure", s, || t.ensure_rfc3986_normalizable())?;
                free("enable", s, || t.enable_normalization())?;
                $buf.write("resolved and normalized", s, &t)?;
                let _ = free("ensure", s, || t.ensure_rfc3986_normalizable())?;
                $buf.write("resolved and normalized", s, &free("resolve", s, || r.resolve_against(base).and_normalize_but_preserve_authorityless_relative_path())?)?;
            }
            let b = free("builder", s, || Builder::from(r))?;
            let mut n = b.clone();
            n.normalize();
            for b in [b, n] {
                if let Ok(v) = free("build", s, || b.clone().build::<RiReferenceStr<$S>>())? {
                    $buf.write("built", s, &v)?;
                    let _ = free("ensure", s, || v.ensure_rfc3986_normalizable())?;
                }
                if let Ok(v) = free("build", s, || b.build::<RiStr<$S>>())? {
                    $buf.write("built", s, &v)?;
                }
            }
        }
        if let Ok(r) = RiStr::<$S>::new(s) {
            parts!(r, s, [scheme_str, authority_str, path_str, query_str, fragment_str]);
            let (q, f) = free("query and fragment", s, || (r.query(), r.fragment()))?;
            view(s, q.map(|v| v.as_str()), "query")?;
            view(s, f.map(|v| v.as_str()), "fragment")?;
            let _ = free("normalization test", s, || {
                black_box((
                    r.is_normalized(),
                    r.is_normalized_rfc3986(),
                    r.is_normalized_but_authorityless_relative_path_preserved(),
                    r.ensure_rfc3986_normalizable(),
                ))
            })?;
            $buf.write("normalized", s, &free("normalize", s, || r.normalize())?)?;
            $buf.write("normalized", s, &free("normalize", s, || r.normalize_but_preserve_authorityless_relative_path())?)?;
            $buf.write("masked", s, &r.mask_password())?;
            let (a, f) = free("to_absolute_and_fragment", s, || r.to_absolute_and_fragment())?;
            same(&s[..a.as_str().len()], a.as_str(), "to_absolute_and_fragment")?;
            view(s, f.map(|f| f.as_str()), "to_absolute_and_fragment")?;
            same(a.as_str(), free("to_absolute", s, || r.to_absolute())?.as_str(), "to_absolute")?;
            same(s, AsRef::<RiReferenceStr<$S>>::as_ref(r).as_str(), "as reference")?;
            keep(r.roomy(), |v| v.as_str(), RiReferenceString::<$S>::from, "into reference")?;
            narrow!(r, RiAbsoluteStr RiAbsoluteString $S);
        }
        if let Ok(r) = RiAbsoluteStr::<$S>::new(s) {
            parts!(r, s, [scheme_str, authority_str, path_str, query_str]);
            view(s, free("query", s, || r.query())?.map(|v| v.as_str()), "query")?;
            let _ = free("normalization test", s, || {
                black_box((
                    r.is_normalized(),
                    r.is_normalized_rfc3986(),
                    r.is_normalized_but_authorityless_relative_path_preserved(),
                    r.ensure_rfc3986_normalizable(),
                ))
            })?;
            $buf.write("normalized", s, &free("normalize", s, || r.normalize())?)?;
            $buf.write("normalized", s, &free("normalize", s, || r.normalize_but_preserve_authorityless_relative_path())?)?;
            $buf.write("masked", s, &r.mask_password())?;
            same(s, AsRef::<RiStr<$S>>::as_ref(r).as_str(), "as IRI")?;
            same(s, AsRef::<RiReferenceStr<$S>>::as_ref(r).as_str(), "as reference")?;
            keep(r.roomy(), |v| v.as_str(), RiReferenceString::<$S>::from, "into reference")?;
            keep(r.roomy(), |v| v.as_str(), RiString::<$S>::from, "into IRI")?;
        }
        if let Ok(r) = RiRelativeStr::<$S>::new(s) {
            parts!(r, s, [authority_str, path_str, query_str, fragment_str]);
            let (q, f) = free("query and fragment", s, || (r.query(), r.fragment()))?;
            view(s, q.map(|v| v.as_str()), "query")?;
            view(s, f.map(|v| v.as_str()), "fragment")?;
            $buf.write("masked", s, &r.mask_password())?;
            same(s, AsRef::<RiReferenceStr<$S>>::as_ref(r).as_str(), "as reference")?;
            keep(r.roomy(), |v| v.as_str(), RiReferenceString::<$S>::from, "into reference")?;
        }
        for (n, e) in [
            ("query", PercentEncoded::<_, $S>::from_query(s)),
            ("path", PercentEncoded::from_path(s)),
            ("segment", PercentEncoded::from_path_segment(s)),
            ("fragment", PercentEncoded::from_fragment(s)),
            ("user", PercentEncoded::from_user(s)),
            ("password", PercentEncoded::from_password(s)),
            ("reg-name", PercentEncoded::from_reg_name(s)),
            ("unreserved", PercentEncoded::unreserve(s)),
            ("characters", PercentEncoded::characters(s)),
        ] {
            $buf.write(n, s, &e)?;
        }
    }};
}

macro_rules! mapped {
    ($s:expr, $buf:expr, $cx:expr, $($I:ident $IO:ident $U:ident $UO:ident),*) => {$(
        if let Ok(r) = $I::new($s) {
            $buf.write("mapped", $s, &free("map", $s, || MappedToUri::from(r))?)?;
            let uri = free("as_uri", $s, || r.as_uri())?;
            if let Some(u) = uri {
                $cx.label("ASCII only");
                same($s, u.as_str(), "as_uri")?;
                same($s, AsRef::<$I>::as_ref(u).as_str(), "as IRI")?;
                let u: $UO = keep(r.roomy(), |v| v.as_str(), |v| v.try_into_uri().unwrap(), "try_into_uri")?;
                let _: $IO = keep(u, |v| v.as_str(), |v| v.into(), "into IRI")?;
            } else {
                keep(r.roomy(), |v| v.as_str(), |v| v.try_into_uri().unwrap_err(), "try_into_uri")?;
            }
        }
    )*};
}

/// Values without owned memory.
struct Slices<'a>(&'a [&'a str]);
impl Context for Slices<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = v.var_name().as_str().len();
        match n % 5 {
            0 => v.visit_undefined(),
            1 | 2 => v.visit_string(self.0[n % self.0.len()]),
            3 => v.visit_list().visit_items_and_finish(self.0),
            _ => {
                let mut v = v.visit_assoc();
                for (i, s) in self.0.iter().enumerate() {
                    if let ControlFlow::Break(r) = v.visit_entry(i, s) {
                        return r;
                    }
                }
                v.finish()
            }
        }
    }
}

fn templates(t: &str, vals: &[&str], buf: &mut Buf, cx: &mut Cx) -> R {
    let r = free("template", t, || UriTemplateStr::new(t))?;
    let owned = roomy(t);
    let p = owned.as_ptr();
    match free("owned template", t, || UriTemplateString::try_from(owned))? {
        Ok(v) => {
            let v = keep(v, |v| v.as_str(), String::from, "template into string")?;
            ensure!(v.as_ptr() == p, "buffer not kept", "template {t:?}");
        }
        Err(e) => {
            let v = free("into source", t, || e.into_source())?;
            ensure!(v.as_ptr() == p && v == t, "buffer not kept", "refused template {t:?}");
        }
    }
    let Ok(r) = r else { return Ok(()) };
    same(t, r.as_str(), "template")?;
    let mut vars = free("variables", t, || r.variables())?;
    while let Some(v) = free("next variable", t, || vars.next())? {
        view(t, Some(v.as_str()), "variable name")?;
        cx.label("template with a variable");
    }
    let c = Slices(vals);
    let e = free("expand", t, || r.expand::<UriSpec, _>(&c))?;
    if let Ok(e) = e {
        cx.label("expansion");
        buf.write("expansion", t, &e)?;
    }
    if let Ok(e) = free("expand", t, || r.expand::<IriSpec, _>(&c))? {
        buf.write("expansion", t, &e)?;
    }
    Ok(())
}

fn decoding(s: &str, buf: &mut Buf) -> R {
    let d = free("decode", s, || decode_whatwg_bytes(s.as_bytes()))?;
    if let Some(b) = free("to_bytes", s, || d.to_bytes())? {
        ensure!(b.as_ptr() == s.as_ptr(), "not the same memory", "decoded {s:?}");
        let c = free("into_bytes", s, || d.into_bytes())?;
        ensure!(matches!(c, Cow::Borrowed(c) if c.as_ptr() == s.as_ptr()), "not the same memory", "decoded {s:?}");
    }
    let rest = free("not yet decoded", s, || d.not_yet_decoded())?;
    view(s, std::str::from_utf8(rest).ok(), "not yet decoded")?;
    free("fragments", s, || d.bytes_fragments().count())?;
    buf.write("not decoded", s, &rest.len())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    const SYM: [&str; 12] = ["s", ":", "/", "#", "?", "%4a", "..", "\u{E9}", "[::1]", "@", "{a}", "%E9"];
    let (s, base) = match src.weighted(&[1, 20]) {
        0 => (gen::over(src, &SYM, 6), "s://h/a/b".to_string()),
        _ => {
            let iri = src.bool();
            let kind = src.pick_c(&[Kind::Absolute, Kind::Full, Kind::Reference, Kind::Reference, Kind::Relative, Kind::Query, Kind::Fragment]);
            let s = match src.weighted(&[10, 3, 1]) {
                0 => gen::valid_ref(src, iri, kind),
                1 => gen::maybe(src, iri, kind),
                _ => gen::soup(src, 10),
            };
            (s, gen::valid_ref(src, iri, Kind::Absolute))
        }
    };
    let t = match src.weighted(&[1, 4]) {
        0 => s.clone(),
        _ => tm::template(src, &[], 3),
    };
    let vals = [tm::value_text(src), tm::value_text(src)];
    cx.describe(format_args!("{s:?}, base {base:?}, template {t:?}, values {vals:?}"));
    let mut buf = Buf(vec![0; 16 * (s.len() + base.len() + vals[0].len() + vals[1].len()) + 100]);
    let mut n = 0;
    spec!(&s, &base, buf, n, IriSpec, cx);
    spec!(&s, &base, buf, n, UriSpec, cx);
    mapped!(
        &s, buf, cx,
        IriReferenceStr IriReferenceString UriReferenceStr UriReferenceString,
        IriStr IriString UriStr UriString,
        IriAbsoluteStr IriAbsoluteString UriAbsoluteStr UriAbsoluteString,
        IriRelativeStr IriRelativeString UriRelativeStr UriRelativeString,
        IriQueryStr IriQueryString UriQueryStr UriQueryString,
        IriFragmentStr IriFragmentString UriFragmentStr UriFragmentString
    );
    templates(&t, &[&vals[0], &vals[1]], &mut buf, cx)?;
    decoding(&s, &mut buf)?;
    cx.mark(n > 0, "valid for some type");
    if n > 0 && !s.is_ascii() {
        cx.label("valid, not ASCII");
    }
    if n > 0 && s.contains("//") && s.contains('@') {
        cx.label("with user information");
    }
    if n > 0 && s.len() > 200 {
        cx.label("long");
    }
    if n == 0 {
        cx.label("valid for no type");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(gen::all_over(vec![0], 12, if thorough { 4 } else { 3 }))
}

pub static PROP: Prop = Prop {
    id: "C24",
    quick: 250_000,
    thorough: 1_500_000,
    rule: "Each case is a text, a base, a template and two values. Every operation that is documented to need no heap (validation, construction, \
           parts, tests and output of normalization, resolution, masking, mapping, encoding, decoding, building and expansion into a prepared \
           buffer, comparison, hashing) runs under an allocator that counts, and must not allocate. Every part must lie in the memory of its \
           whole, and every conversion between types must keep the memory, also when it refuses. Enumerated: all strings of up to 3 (4) of \
           12 symbols. Non-trivial: valid for some type.",
    run,
    enumerate,
    must_reach: &[
        ("valid for some type", 5000),
        ("valid for no type", 100),
        ("valid, not ASCII", 500),
        ("ASCII only", 1000),
        ("with user information", 300),
        ("resolved against a base", 2000),
        ("template with a variable", 1000),
        ("expansion", 1000),
    ],
    assumptions: &["the counting allocator sees every allocation of the process's code (it is the global one)"],
};
