//! C20: formatting into buffers and sinks that fail.

use std::cell::Cell;
use std::fmt::{self, Display, Write as _};

use iri_string::convert::MappedToUri;
use iri_string::build::{Buildable, Builder, Built};
use iri_string::format::{try_append_to_string, write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;

use super::c08::Pieces;
use super::c15;
use crate::engine::*;
use crate::gen;
use crate::rfc::{self, Kind};
use crate::tplmodel::Val;

/// Accepts `room` bytes and `calls` calls; refuses whatever is beyond them.
struct Sink {
    got: String,
    room: usize,
    calls: usize,
    /// Refuses one call only.
    once: bool,
    failed: bool,
    n: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        let full = self.got.len() + s.len() > self.room || self.n > self.calls;
        if full && !(self.once && self.failed) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}
fn sink(room: usize, calls: usize, once: bool) -> Sink {
    Sink { got: String::new(), room, calls, once, failed: false, n: 0 }
}

fn check(d: &dyn Display, exp: Option<&str>, what: &str, on: &str) -> R {
    let text = d.to_string();
    let at = format!("{what} of {on}");
    if let Some(exp) = exp {
        ensure_eq!(text, exp, "text", "{at}");
    }
    ensure_eq!(d.to_string(), text, "second time", "{at}");
    ensure_eq!(format!("{d}"), text, "formatted", "{at}");
    ensure_eq!(d.try_to_string().ok().as_ref(), Some(&text), "try_to_string", "{at}");
    let len = text.len();
    // Buffers.
    const FILL: u8 = 0xFE;
    let mut buf = vec![FILL; len + 3];
    for n in 0..=len + 2 {
        buf.fill(FILL);
        let start = buf.as_ptr();
        match write_to_slice(&mut buf[..n], &d) {
            Ok(s) => {
                ensure!(n >= len, "fits in a short buffer", "{at}: {n} of {len} bytes");
                ensure_eq!(s, text, "text in buffer", "{at}: buffer of {n} bytes");
                ensure!(s.as_ptr() == start, "place in buffer", "{at}: buffer of {n} bytes");
            }
            Err(_) => ensure!(n < len, "does not fit in its length", "{at}: {n} for {len} bytes"),
        }
        ensure!(buf[n..].iter().all(|b| *b == FILL), "beyond the buffer", "{at}: buffer of {n} bytes");
    }
    // Strings that have something in them already.
    let mut calls = sink(usize::MAX, usize::MAX, false);
    ensure!(write!(calls, "{d}").is_ok() && calls.got == text, "sink", "{at}: {:?}", calls.got);
    let mut dest = String::from("\u{3042}<");
    for times in 1..=2 {
        ensure!(try_append_to_string(&mut dest, &d).is_ok(), "append", "{at}");
        ensure_eq!(dest, format!("\u{3042}<{}", text.repeat(times)), "append", "{at}");
    }
    let mut dest = String::with_capacity(len);
    ensure!(try_append_to_string(&mut dest, &d).is_ok() && dest == text, "append to capacity", "{at}: {dest:?}");
    // Sinks that fail by size or by call, once or for good.
    for once in [false, true] {
        for room in 0..=len {
            let mut s = sink(room, usize::MAX, once);
            let r = write!(s, "{d}");
            ensure_eq!(r.is_err(), s.failed, "failure reported", "{at}: sink of {room} bytes, once: {once}");
            ensure_eq!(s.failed, room < len, "failure", "{at}: sink of {room} bytes, once: {once}");
            ensure!(text.starts_with(&s.got), "prefix", "{at}: sink of {room} bytes, once: {once}: {:?}", s.got);
            ensure!(r.is_err() || s.got == text, "whole", "{at}: sink of {room} bytes, once: {once}: {:?}", s.got);
        }
        for k in 0..calls.n {
            let mut s = sink(usize::MAX, k, once);
            let r = write!(s, "{d}");
            ensure!(s.failed, "failure", "{at}: at call {k}, once: {once}");
            ensure!(r.is_err(), "failure reported", "{at}: at call {k}, once: {once}");
            ensure!(text.starts_with(&s.got), "prefix", "{at}: at call {k}, once: {once}: {:?}", s.got);
        }
    }
    // After failures nothing has changed.
    ensure_eq!(d.to_string(), text, "after failures", "{at}");
    Ok(())
}

/// A displayed value, and the text of its dedicated string.
fn dedicated<T: Display + ToDedicatedString>(v: &T, what: &str, on: &str) -> R
where
    T::Target: AsRef<str>,
{
    let text = v.to_string();
    ensure_eq!(v.to_dedicated_string().as_ref(), text, "to_dedicated_string", "{what} of {on}");
    match v.try_to_dedicated_string() {
        Ok(t) => ensure_eq!(t.as_ref(), text, "try_to_dedicated_string", "{what} of {on}"),
        Err(_) => return fail("allocation", on),
    }
    check(v, None, what, on)
}

/// Fails by itself on the nth time of being displayed.
struct Broken<'a>(&'a str, Cell<bool>);
impl Display for Broken<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        self.1.set(true);
        Err(fmt::Error)
    }
}

fn built<'a, T>(b: Builder<'a>, on: &str) -> Result<bool, Fail>
where
    T: ?Sized + Buildable<'a>,
    Built<'a, T>: Display + ToDedicatedString,
    <Built<'a, T> as ToDedicatedString>::Target: AsRef<str>,
{
    match b.build::<T>() {
        Ok(v) => dedicated(&v, "Built", on).map(|()| true),
        Err(_) => Ok(false),
    }
}

macro_rules! of_kind {
    ($name:ident, $b:ident, $o:ident) => {
        fn $name<S: Spec>(s: &str, alt: &str, seed: u64) -> R {
            let Ok(v) = $b::<S>::new(s) else { return Ok(()) };
            let on = format!("{s:?} as {}", stringify!($b));
            check(&v, Some(s), "slice", &on)?;
            check(&$o::<S>::from(v), Some(s), "owned", &on)?;
            let m = v.mask_password();
            dedicated(&m, "PasswordMasked", &on)?;
            check(&m.replace_password(Pieces(alt, seed)), None, "PasswordReplaced", &on)?;
            check(&m.replace_password_with(|p| format!("{alt}{}", p.len())), None, "PasswordReplaced (closure)", &on)?;
            let broken = Broken(alt, Cell::new(false));
            let r = write!(String::new(), "{}", m.replace_password(&broken));
            ensure_eq!(r.is_err(), broken.1.get(), "error of the replacement", "{on}");
            dedicated(&MappedToUri::from(v), "MappedToUri", &on)?;
            for b in [Builder::from(v), Builder::from(v).also(|b| b.normalize())] {
                built::<RiReferenceStr<S>>(b.clone(), &on)?;
                built::<RiStr<S>>(b.clone(), &on)?;
                built::<RiAbsoluteStr<S>>(b.clone(), &on)?;
                built::<RiRelativeStr<S>>(b, &on)?;
            }
            Ok(())
        }
    };
}
trait Also: Sized {
    fn also(mut self, f: impl FnOnce(&mut Self)) -> Self {
        f(&mut self);
        self
    }
}
impl Also for Builder<'_> {}
of_kind!(k_ref, RiReferenceStr, RiReferenceString);
of_kind!(k_full, RiStr, RiString);
of_kind!(k_abs, RiAbsoluteStr, RiAbsoluteString);
of_kind!(k_rel, RiRelativeStr, RiRelativeString);

fn reference<S: Spec>(s: &str, alt: &str, seed: u64) -> R {
    k_ref::<S>(s, alt, seed)?;
    k_full::<S>(s, alt, seed)?;
    k_abs::<S>(s, alt, seed)?;
    k_rel::<S>(s, alt, seed)?;
    macro_rules! norm {
        ($T:ident) => {
            if let Ok(v) = $T::<S>::new(s) {
                let on = format!("{s:?} as {}", stringify!($T));
                dedicated(&v.normalize(), "normalize", &on)?;
                dedicated(&v.normalize_but_preserve_authorityless_relative_path(), "normalize_but_preserve", &on)?;
            }
        };
    }
    norm!(RiStr);
    norm!(RiAbsoluteStr);
    macro_rules! part {
        ($T:ident, $O:ident) => {
            if let Ok(v) = $T::<S>::new(s) {
                let on = format!("{s:?} as {}", stringify!($T));
                check(&v, Some(s), "slice", &on)?;
                check(&$O::<S>::from(v), Some(s), "owned", &on)?;
                dedicated(&MappedToUri::from(v), "MappedToUri", &on)?;
            }
        };
    }
    part!(RiQueryStr, RiQueryString);
    part!(RiFragmentStr, RiFragmentString);
    Ok(())
}

fn resolved<S: Spec>(base: &str, s: &str) -> R {
    let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(base), RiReferenceStr::<S>::new(s)) else {
        return fail("rejected", format!("{base:?} {s:?}"));
    };
    let on = format!("{s:?} on {base:?}");
    dedicated(&r.resolve_against(b), "resolve_against", &on)?;
    let res = FixedBaseResolver::new(b);
    dedicated(&res.resolve(r), "resolve", &on)?;
    dedicated(&res.resolve(r).and_normalize(), "resolve and normalize", &on)?;
    dedicated(&res.resolve(r).and_normalize_but_preserve_authorityless_relative_path(), "resolve and normalize (preserving)", &on)?;
    let (mut a, mut c) = (res.resolve(r), res.resolve(r));
    a.enable_normalization();
    c.enable_normalization_preserving_authorityless_relative_path();
    dedicated(&a, "resolve, enable_normalization", &on)?;
    dedicated(&c, "resolve, enable_normalization (preserving)", &on)
}

fn encoded<S: Spec>(s: &str, seed: u64) -> R {
    let p = || Pieces(s, seed);
    let on = format!("{s:?}");
    let all: [(&str, Box<dyn Display + '_>); 9] = [
        ("from_reg_name", Box::new(PercentEncoded::<_, S>::from_reg_name(p()))),
        ("from_user", Box::new(PercentEncoded::<_, S>::from_user(p()))),
        ("from_password", Box::new(PercentEncoded::<_, S>::from_password(p()))),
        ("from_path_segment", Box::new(PercentEncoded::<_, S>::from_path_segment(p()))),
        ("from_path", Box::new(PercentEncoded::<_, S>::from_path(p()))),
        ("from_query", Box::new(PercentEncoded::<_, S>::from_query(p()))),
        ("from_fragment", Box::new(PercentEncoded::<_, S>::from_fragment(p()))),
        ("unreserve", Box::new(PercentEncoded::<_, S>::unreserve(p()))),
        ("characters", Box::new(PercentEncoded::<_, S>::characters(p()))),
    ];
    for (name, d) in &all {
        check(d, None, name, &on)?;
    }
    let broken = Broken(s, Cell::new(false));
    let r = write!(String::new(), "{}", PercentEncoded::<_, S>::from_query(&broken));
    ensure!(r.is_err() && broken.1.get(), "error of the value", "{on}");
    Ok(())
}

fn expanded<S: Spec>(text: &str, vars: &c15::Vars) -> R {
    let on = format!("{text:?} with {vars:?}");
    let Ok(t) = UriTemplateStr::new(text) else { return fail("template", on) };
    let ctx = c15::simple(vars);
    match t.expand::<S, _>(&ctx) {
        Ok(e) => {
            check(&e, None, "Expanded", &on)?;
        }
        Err(_) => {}
    }
    check(&t, Some(text), "template", &on)?;
    check(&UriTemplateString::from(t), Some(text), "owned template", &on)?;
    Ok(())
}

fn cut(s: String, n: usize) -> Option<String> {
    (s.chars().count() <= n).then_some(s)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    const SYM: [&str; 10] = ["s", ":", "/", "//", ".", "..", "?", "#", "@", "%c3\u{E9}"];
    const TRIPLETS: [&str; 8] = ["%ff", "%E3", "%81", "%82", "%", "%4", "a", "\u{3042}"];
    let seed = src.below(1 << 20);
    match src.weighted(&[1, 8, 6, 3, 4, 2]) {
        m @ (0 | 1) => {
            let iri = src.bool();
            let s = if m == 0 {
                gen::over(src, &SYM, 6)
            } else {
                let k = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative, Kind::Query]);
                gen::valid_ref(src, iri, k)
            };
            let Some(s) = cut(s, 60) else {
                cx.label("too long");
                return Ok(());
            };
            let alt = gen::soup(src, 4);
            cx.describe(format_args!("{s:?} (iri: {iri}), replacement {alt:?}"));
            if iri {
                reference::<IriSpec>(&s, &alt, seed)?;
            } else {
                reference::<UriSpec>(&s, &alt, seed)?;
            }
            let valid = rfc::valid(Kind::Reference, iri, &s);
            cx.mark(valid && s.contains("//") && s.contains('@'), "reference with userinfo");
            cx.mark(valid && s.contains('/'), "reference with a path");
            cx.mark(valid && s.contains(['?', '#']), "reference with query or fragment");
        }
        2 => {
            let iri = src.bool();
            let base = gen::valid_ref(src, iri, Kind::Absolute);
            let s = gen::valid_ref(src, iri, Kind::Reference);
            let (Some(base), Some(s)) = (cut(base, 60), cut(s, 60)) else {
                cx.label("too long");
                return Ok(());
            };
            cx.describe(format_args!("{s:?} against {base:?} (iri: {iri})"));
            if iri {
                resolved::<IriSpec>(&base, &s)?;
            } else {
                resolved::<UriSpec>(&base, &s)?;
            }
            cx.mark(true, "resolution");
        }
        3 => {
            let s = gen::soup(src, 8);
            cx.describe(format_args!("encoding {s:?} in pieces of seed {seed}"));
            encoded::<IriSpec>(&s, seed)?;
            encoded::<UriSpec>(&s, seed)?;
            cx.mark(!s.is_empty(), "encoding");
        }
        5 => {
            // Triplets that decode to nothing, cut short, and around those that do.
            let text = src.pick(&["{+v}", "{#v:2}", "{v}", "{;v:3}", "{+v:1}", "{&v,v*}"]);
            let s = gen::over(src, &TRIPLETS, 5);
            cx.describe(format_args!("{text:?} with {s:?}"));
            let vars = c15::Vars::from([("v".to_string(), Val::Str(s.clone()))]);
            expanded::<IriSpec>(text, &vars)?;
            expanded::<UriSpec>(text, &vars)?;
            cx.mark(s.contains('%'), "expansion of triplets");
        }
        _ => {
            let (text, vars) = c15::case(src);
            let Some(text) = cut(text, 80) else {
                cx.label("too long");
                return Ok(());
            };
            let size: usize = format!("{vars:?}").len();
            cx.describe(format_args!("{text:?} with {vars:?}"));
            if size < 400 {
                expanded::<IriSpec>(&text, &vars)?;
                expanded::<UriSpec>(&text, &vars)?;
                cx.mark(text.contains('{'), "expansion");
            }
        }
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 5 } else { 4 };
    let mut all: Vec<Box<dyn Iterator<Item = Vec<u64>>>> = Vec::new();
    for iri in [0, 1] {
        all.push(Box::new(gen::all_over(vec![0, 0, iri], 10, n)));
    }
    for t in 0..6 {
        all.push(Box::new(gen::all_over(vec![0, 22, t], 8, n - 1)));
    }
    Box::new(all.into_iter().flatten())
}

pub static PROP: Prop = Prop {
    id: "C20",
    quick: 120_000,
    thorough: 1_500_000,
    rule: "Each case is a reference, a pair for resolution, a text to encode or a template with values; everything displayable obtained from it \
           is written to buffers of every length from 0 to two more than the text has, to sinks that refuse at every byte and at every \
           call (for good, or once), and appended to strings. Enumerated: all strings of up to 4 (5) of 10 symbols, and \
           values of up to 3 (4) of 8 complete, incomplete, decodable and undecodable percent triplets. Non-trivial: the \
           reference has a path, userinfo, query or fragment, or there is a resolution, an encoding or an expansion.",
    run,
    enumerate,
    must_reach: &[
        ("reference with userinfo", 300),
        ("reference with a path", 1000),
        ("reference with query or fragment", 1000),
        ("resolution", 1000),
        ("encoding", 500),
        ("expansion", 500),
        ("expansion of triplets", 700),
    ],
    assumptions: &["a sink accepts or refuses each written piece as a whole"],
};
