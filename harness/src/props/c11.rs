//! C11: password masking.

use std::cell::RefCell;

use iri_string::build::{Builder, UserinfoBuilder};
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::model::{Auth, Parts};
use crate::rfc::{self, Kind};

const SYM: &[&str] = &[":", "@", "/", "a", "%3A", "?", "#"];

/// The reference cut around its password.
fn cut(s: &str) -> Option<(String, String, String)> {
    let p = Parts::parse(s);
    let a = p.auth()?;
    let (user, password) = a.userinfo.as_deref()?.split_once(':')?;
    // Everything before the password: scheme, `//`, user and colon.
    let head = format!("{}//{user}:", p.scheme.as_ref().map_or(String::new(), |s| format!("{s}:")));
    let tail = s[head.len() + password.len()..].to_string();
    Some((head, password.to_string(), tail))
}

macro_rules! kind_check {
    ($name:ident, $kind:expr, $b:ident, $o:ident) => {
        fn $name<S: Spec>(s: &str, alt: &str, iri: bool) -> R {
            let v = match $b::<S>::new(s) {
                Ok(v) => v,
                Err(_) => return fail("rejected", format!("{s:?} is a valid {}", stringify!($b))),
            };
            let what = concat!("as ", stringify!($b));
            let cut = cut(s);
            let masked = cut.as_ref().map_or(s.to_string(), |(h, _, t)| format!("{h}{t}"));
            let m = v.mask_password();
            ensure_eq!(m.to_string(), masked, "masked", "{s:?} {what}");
            let d: $o<S> = m.to_dedicated_string();
            ensure_eq!(d.as_str(), masked, "masked (to_dedicated_string)", "{s:?} {what}");
            ensure!(rfc::valid($kind, iri, &masked), "invalid", "{masked:?} from {s:?} {what}");
            ensure_eq!(d.mask_password().to_string(), masked, "masked twice", "{s:?} {what}");
            // Replacement.
            let empty = cut.as_ref().is_some_and(|(_, p, _)| p.is_empty());
            let replaced = cut.as_ref().map_or(s.to_string(), |(h, _, t)| format!("{h}{alt}{t}"));
            let got = m.replace_password(alt).to_string();
            // Whether an empty password is one to replace is not specified.
            ensure!(got == replaced || (empty && got == s), "replaced", "{s:?} {what} by {alt:?}: got {got:?}, expected {replaced:?}");
            let seen = RefCell::new(Vec::new());
            let got = m
                .replace_password_with(|pw| {
                    seen.borrow_mut().push(pw.to_string());
                    format!("{alt}{}", pw.len())
                })
                .to_string();
            let seen = seen.into_inner();
            match &cut {
                None => {
                    ensure_eq!(seen, Vec::<String>::new(), "closure calls", "{s:?} {what}");
                    ensure_eq!(got, s, "replaced (closure)", "{s:?} {what}");
                }
                Some((h, pw, t)) => {
                    let exp = format!("{h}{alt}{}{t}", pw.len());
                    if !(empty && got == s) {
                        ensure_eq!(seen, vec![pw.clone()], "closure calls", "{s:?} {what}");
                        ensure_eq!(got, exp, "replaced (closure)", "{s:?} {what}");
                    }
                }
            }
            // In place, with and without the colon.
            let bare = cut.as_ref().map_or(s.to_string(), |(h, _, t)| format!("{}{t}", &h[..h.len() - 1]));
            let mut o = $o::<S>::try_from(s).ok().unwrap();
            o.remove_nonempty_password_inline();
            ensure_eq!(o.as_str(), masked, "remove_nonempty_password_inline", "{s:?} {what}");
            o.remove_nonempty_password_inline();
            ensure_eq!(o.as_str(), masked, "remove_nonempty_password_inline twice", "{s:?} {what}");
            let mut o = $o::<S>::try_from(s).ok().unwrap();
            o.remove_password_inline();
            ensure_eq!(o.as_str(), bare, "remove_password_inline", "{s:?} {what}");
            ensure!(rfc::valid($kind, iri, &bare), "invalid", "{bare:?} from {s:?} {what}");
            o.remove_password_inline();
            ensure_eq!(o.as_str(), bare, "remove_password_inline twice", "{s:?} {what}");
            // What is shown does not depend on the password.
            if let Some((h, pw, t)) = &cut {
                let other = format!("{h}{}{t}", if pw == "Zq" { "Q9" } else { "Zq" });
                let w = match $b::<S>::new(&other) {
                    Ok(v) => v,
                    Err(_) => return fail("rejected", other),
                };
                let m2 = w.mask_password();
                ensure_eq!(m2.to_string(), m.to_string(), "display depends on the password", "{s:?} {what}");
                ensure_eq!(format!("{m2:?}"), format!("{m:?}"), "debug depends on the password", "{s:?} {what}");
                if !empty {
                    let (r1, r2) = (m.replace_password("*"), m2.replace_password("*"));
                    ensure_eq!(r2.to_string(), r1.to_string(), "replaced depends on the password", "{s:?} {what}");
                    ensure_eq!(format!("{r2:?}"), format!("{r1:?}"), "debug of replaced depends on the password", "{s:?} {what}");
                    let (b1, b2) = (Builder::from(v), Builder::from(w));
                    ensure_eq!(format!("{b2:?}"), format!("{b1:?}"), "debug of builder depends on the password", "{s:?} {what}");
                }
            }
            Ok(())
        }
    };
}
kind_check!(k_ref, Kind::Reference, RiReferenceStr, RiReferenceString);
kind_check!(k_full, Kind::Full, RiStr, RiString);
kind_check!(k_abs, Kind::Absolute, RiAbsoluteStr, RiAbsoluteString);
kind_check!(k_rel, Kind::Relative, RiRelativeStr, RiRelativeString);

fn all<S: Spec>(s: &str, alt: &str, iri: bool) -> Result<usize, Fail> {
    let mut n = 0;
    let ks: [(Kind, fn(&str, &str, bool) -> R); 4] = [
        (Kind::Reference, k_ref::<S>),
        (Kind::Full, k_full::<S>),
        (Kind::Absolute, k_abs::<S>),
        (Kind::Relative, k_rel::<S>),
    ];
    for (k, f) in ks {
        if rfc::valid(k, iri, s) {
            n += 1;
            f(s, alt, iri)?;
        }
    }
    Ok(n)
}

fn builder_debug(user: &str, a: &str, b: &str) -> R {
    if a.is_empty() || b.is_empty() {
        return Ok(());
    }
    let (wa, wb) = (format!("{user}:{a}"), format!("{user}:{b}"));
    let pairs: [(UserinfoBuilder<'_>, UserinfoBuilder<'_>); 3] = [
        ((user, a).into(), (user, b).into()),
        ((user, Some(a)).into(), (user, Some(b)).into()),
        (wa.as_str().into(), wb.as_str().into()),
    ];
    for (i, (x, y)) in pairs.into_iter().enumerate() {
        if i == 2 && user.contains(':') {
            continue;
        }
        ensure_eq!(format!("{x:?}"), format!("{y:?}"), "debug of userinfo depends on the password", "user {user:?}, passwords {a:?} and {b:?}");
        let (mut bx, mut by) = (Builder::new(), Builder::new());
        bx.userinfo(x);
        by.userinfo(y);
        ensure_eq!(format!("{bx:?}"), format!("{by:?}"), "debug of builder depends on the password", "user {user:?}, passwords {a:?} and {b:?}");
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (s, _iri) = match src.weighted(&[1, 20]) {
        0 => {
            let head = ["s://", "//", "s:", ""][src.idx(4)];
            (format!("{head}{}", gen::over(src, SYM, 7)), false)
        }
        _ => {
            let iri = src.bool();
            if src.chance(1, 5) {
                (gen::valid_ref(src, iri, Kind::Reference), iri)
            } else {
                // Mostly with userinfo.
                let mut s = String::new();
                if src.bool() {
                    s.push_str(&gen::scheme(src));
                    s.push(':');
                }
                s.push_str("//");
                if src.chance(9, 10) {
                    let u = gen::userinfo(src, iri);
                    s.push_str(&if src.chance(1, 3) { gen::mutate(src, &u, 2) } else { u });
                    s.push('@');
                }
                let a = Auth { userinfo: None, host: gen::host(src, iri), port: src.bool().then(|| gen::port(src)) };
                s.push_str(&a.to_string());
                if src.bool() {
                    s.push_str(&gen::path_for(src, iri, true, true));
                    s.push_str(src.pick(&["", "//u:p@h", "?q=//u:p@h", "#//u:p@h", "?:@#:@"]));
                }
                (s, iri)
            }
        }
    };
    let alt = src.pick(&["", "*", "${pw}", "a b", ":", "@", "\u{E9}", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]).to_string();
    cx.describe(format_args!("{s:?} replacement {alt:?}"));
    let n = all::<IriSpec>(&s, &alt, true)?;
    if n == 0 {
        cx.label("not a reference (no check)");
        return Ok(());
    }
    all::<UriSpec>(&s, &alt, false)?;
    let (u, a, b) = (gen::userinfo(src, true), gen::userinfo(src, true), gen::soup(src, 6));
    builder_debug(&u, &a, &b)?;
    let c = cut(&s);
    cx.mark(c.as_ref().is_some_and(|(_, p, _)| !p.is_empty()), "non-empty password");
    cx.mark(c.as_ref().is_some_and(|(_, p, _)| p.is_empty()), "empty password");
    cx.mark(c.as_ref().is_some_and(|(_, p, _)| p.contains(':')), "colon in the password");
    let user_only = Parts::parse(&s).auth().and_then(|a| a.userinfo).is_some_and(|u| !u.contains(':'));
    cx.mark(user_only, "userinfo without password");
    if c.is_none() && s.contains(':') && s.contains('@') {
        cx.mark(true, "colon and at-sign elsewhere");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 7 } else { 5 };
    Box::new((0..4u64).flat_map(move |h| gen::all_over(vec![0, h], SYM.len() as u64, n)))
}

pub static PROP: Prop = Prop {
    id: "C11",
    quick: 600_000,
    thorough: 5_000_000,
    rule: "Each case is one reference masked by every route as each of the four kinds it is valid for (texts of up to 5 symbols out of 7 \
           after 4 prefixes enumerated, then generated ones rich in colons and at-signs). Non-trivial: it has userinfo, \
           or a colon and an at-sign elsewhere.",
    run,
    enumerate,
    must_reach: &[
        ("non-empty password", 930),
        ("empty password", 300),
        ("colon in the password", 300),
        ("userinfo without password", 1000),
        ("colon and at-sign elsewhere", 1000),
    ],
    assumptions: &["whether replace_password replaces an empty password is left open (the documentation differs from the code)"],
};
