//! C14: acceptance of URI templates and variable names.

use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::VarName;
use iri_string::template::simple_context::SimpleContext;
use iri_string::template::{UriTemplateStr, UriTemplateString};

use crate::engine::*;
use crate::gen;
use crate::tplmodel as tm;

const GENERAL: [&str; 16] = ["{", "}", "a", ".", ":", "1", "0", "*", ",", "+", "=", "%", "4", "\u{E9}", " ", "|"];
const INSIDE: [&str; 12] = ["a", ".", ":", "1", "0", "*", ",", "?", "%41", "%", "+", "{"];

fn check(s: &str) -> Result<bool, Fail> {
    let ok = tm::valid_template(s);
    assert_eq!(ok, tm::compact(s), "harness: the template recognizers disagree on {s:?}");
    assert_eq!(tm::valid_varname(s), tm::compact_varname(s), "harness: the name recognizers disagree on {s:?}");
    let t = UriTemplateStr::new(s);
    ensure_eq!(t.is_ok(), ok, "template", "UriTemplateStr::new({s:?}) is {t:?}");
    ensure_eq!(<&UriTemplateStr>::try_from(s).is_ok(), ok, "from str", "{s:?}");
    ensure_eq!(<&UriTemplateStr>::try_from(s.as_bytes()).is_ok(), ok, "from bytes", "{s:?}");
    ensure_eq!(s.parse::<UriTemplateString>().is_ok(), ok, "parse", "{s:?}");
    ensure_eq!(UriTemplateString::try_from(s).is_ok(), ok, "owned from str", "{s:?}");
    ensure_eq!(UriTemplateString::try_from(s.as_bytes()).is_ok(), ok, "owned from bytes", "{s:?}");
    match UriTemplateString::try_from(s.to_string()) {
        Ok(o) => {
            ensure!(ok, "owned", "{s:?} accepted");
            ensure_eq!(o.as_str(), s, "owned text", "{s:?}");
            ensure_eq!(String::from(o), s, "owned into String", "{s:?}");
        }
        Err(e) => {
            ensure!(!ok, "owned", "{s:?} rejected");
            ensure_eq!(Err(e.validation_error()), t, "same error", "{s:?}");
            ensure_eq!(e.clone().into_source(), s, "source of clone", "{s:?}");
            ensure_eq!(e.into_source(), s, "source", "{s:?}");
        }
    }
    ensure_eq!(VarName::new(s).is_ok(), tm::valid_varname(s), "varname", "VarName::new({s:?})");
    if let Ok(v) = VarName::new(s) {
        ensure_eq!(v.as_str(), s, "varname text", "{s:?}");
    }
    if let Ok(t) = t {
        ensure_eq!(t.as_str(), s, "text", "{s:?}");
        ensure_eq!(t.len(), s.len(), "len", "{s:?}");
        ensure_eq!(t.is_empty(), s.is_empty(), "is_empty", "{s:?}");
        ensure_eq!(t.to_string(), s, "display", "{s:?}");
        let (b, r, a, c): (Box<UriTemplateStr>, Rc<UriTemplateStr>, Arc<UriTemplateStr>, Cow<'_, UriTemplateStr>) =
            (t.into(), t.into(), t.into(), t.into());
        ensure!(b.as_str() == s && r.as_str() == s && a.as_str() == s && c.as_str() == s, "containers", "{s:?}");
        ensure!(<&str>::from(t) == s && AsRef::<UriTemplateStr>::as_ref(t).as_str() == s && AsRef::<str>::as_ref(t) == s, "borrowed", "{s:?}");
        // SAFETY: just accepted.
        let (u, o) = unsafe { (UriTemplateStr::new_unchecked(s), UriTemplateString::new_unchecked(s.to_string())) };
        ensure!(u.as_str() == s && o.as_str() == s && o.capacity() >= s.len(), "new_unchecked", "{s:?}");
        let o = UriTemplateString::from(t);
        ensure_eq!(o.as_slice().as_str(), s, "to owned", "{s:?}");
        ensure_eq!(Box::<UriTemplateStr>::from(o.clone()).as_str(), s, "owned to box", "{s:?}");
        ensure_eq!(Cow::<UriTemplateStr>::from(o).as_str(), s, "owned to cow", "{s:?}");
        if !s.contains('{') {
            let ctx = SimpleContext::new();
            ensure_eq!(t.expand::<UriSpec, _>(&ctx).unwrap().to_string(), s, "literal", "{s:?}");
            ensure_eq!(t.expand::<IriSpec, _>(&ctx).unwrap().to_string(), s, "literal", "{s:?}");
            ensure_eq!(t.variables().count(), 0, "variables of a literal", "{s:?}");
        }
    }
    Ok(ok)
}

fn case(src: &mut Src) -> String {
    let s = match src.weighted(&[1, 1, 1, 40, 25, 15, 10, 6, 6]) {
        0 => gen::over(src, &GENERAL, 12),
        1 => format!("{{{}}}", gen::over(src, &INSIDE, 12)),
        2 => {
            // One character, as a literal, in a name, and as an operator.
            let c = char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{FFFD}');
            match src.idx(3) {
                0 => format!("{c}"),
                1 => format!("{{a{c}}}"),
                _ => format!("{{{c}a}}"),
            }
        }
        3 => tm::template(src, &[], 5),
        4 => {
            let t = tm::template(src, &[], 4);
            gen::mutate(src, &t, 3)
        }
        5 => {
            // Template symbols thrown in.
            let mut t: Vec<char> = tm::template(src, &[], 3).chars().collect();
            for _ in 0..=src.idx(3) {
                let at = src.idx(t.len() + 1);
                let x = src.pick(&["{", "}", "{}", ",", ".", ":", "*", "%", "%4", "0", "+", "|", "!", "@", "=", ":0", ":12345", ":1:1", "**", "*:1", "..", "\u{E9}", "%\u{E9}", "%4\u{E9}", " "]);
                t.splice(at..at, x.chars());
            }
            t.into_iter().collect()
        }
        6 => {
            // One variable with a questionable modifier.
            let n = tm::varname(src);
            let m = src.pick(&["", "*", ":1", ":0", ":01", ":10", ":9999", ":10000", ":00001", ":+1", ":-1", ":", "::", ":1*", "*:1", "**", ":a", ":1a", ": 1", ":\u{FF11}", "*a", ":99999", ":65536", ":0x1", ":1_0"]);
            format!("{}{{{}{n}{m}}}", tm::literal(src), src.pick(&["", "+", "?", ";", "/", "=", "|"]))
        }
        7 => tm::varname(src),
        _ => {
            let v = tm::varname(src);
            gen::mutate(src, &v, 2)
        }
    };
    let cap = if src.chance(1, 64) { 4000 } else { 300 };
    s.chars().take(cap).collect()
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let s = case(src);
    cx.describe(format_args!("{s:?}"));
    let ok = check(&s)?;
    cx.mark(ok && s.contains('{'), "accepted with an expression");
    cx.mark(!ok && s.contains('{') && s.contains('}'), "rejected with braces");
    if ok && s.contains(':') && s.contains('{') {
        cx.label("accepted with a colon");
    }
    if tm::valid_varname(&s) {
        cx.label("variable name");
    }
    // Bytes that are not UTF-8 are never a template.
    if src.chance(1, 16) {
        let mut b = s.clone().into_bytes();
        let at = src.idx(b.len() + 1);
        b.insert(at, src.pick_c(&[0x80, 0xC0, 0xFF, 0xE3]));
        if std::str::from_utf8(&b).is_err() {
            ensure!(<&UriTemplateStr>::try_from(&b[..]).is_err(), "not UTF-8", "{b:?}");
            ensure!(UriTemplateString::try_from(&b[..]).is_err(), "not UTF-8 (owned)", "{b:?}");
            cx.label("not UTF-8");
        }
    }
    // Appending.
    if ok && src.chance(1, 4) {
        let more = tm::template(src, &[], 3);
        if let Ok(m) = UriTemplateStr::new(&more) {
            let mut o = UriTemplateString::try_from(s.as_str()).unwrap();
            if src.bool() {
                o.shrink_to_fit();
            }
            o.append(m);
            ensure_eq!(o.as_str(), format!("{s}{more}"), "append", "{s:?} {more:?}");
            cx.label("append");
        }
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let g = gen::all_over(vec![0], GENERAL.len() as u64, if thorough { 5 } else { 4 });
    let i = gen::all_over(vec![1], INSIDE.len() as u64, if thorough { 6 } else { 5 });
    let step = if thorough { 1 } else { 37 };
    let c = (0..0x11_0000u64)
        .filter(move |c| *c < 0x180 || c % step == 0 || gen::near_edge(*c))
        .flat_map(|c| (0..3u64).map(move |k| vec![2, c, k]));
    Box::new(g.chain(i).chain(c))
}

pub static PROP: Prop = Prop {
    id: "C14",
    quick: 900_000,
    thorough: 10_000_000,
    rule: "Each case is one string judged as a template and as a variable name by every constructor, against the ABNF of RFC 6570. \
           Enumerated: all strings of up to 4 symbols (5 thorough) over 16 symbols, all expressions of up to 5 (6) symbols over 12, \
           and single characters as literal, in a name and as operator. Generated: valid templates, mutations of them, questionable \
           modifiers. Non-trivial: an accepted one with an expression, or a rejected one with braces.",
    run,
    enumerate,
    must_reach: &[
        ("accepted with an expression", 1500),
        ("rejected with braces", 1500),
        ("accepted with a colon", 500),
        ("variable name", 380),
        ("not UTF-8", 100),
        ("append", 300),
    ],
    assumptions: &["strings of more than 319 characters are judged by a linear recognizer, which is compared with the ABNF interpreter on every shorter string"],
};
