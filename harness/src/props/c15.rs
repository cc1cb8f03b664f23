//! C15: expansion of URI templates.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

use iri_string::impl_template_context_naive;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;

use crate::engine::*;
use crate::rfc::{self, Kind};
use crate::tplmodel::{self as tm, Mod, Part, Val};

/// Displays a text in pieces: empty ones, single characters and longer ones.
struct Pieces<'a>(&'a str, u64);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write as _;
        let mut h = mix(self.1);
        let mut rest = self.0;
        if h & 1 == 0 {
            f.write_str("")?;
        }
        while !rest.is_empty() {
            h = mix(h);
            // Half of the texts come one character at a time.
            let n = if self.1 & 1 == 0 { 1 } else { 1 + (h % 5) as usize };
            let end = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
            let (head, tail) = rest.split_at(end);
            match (n, h >> 8 & 3) {
                (1, 0) => f.write_char(head.chars().next().unwrap())?,
                (_, 1) => write!(f, "{head}")?,
                (_, 2) => {
                    f.write_str(head)?;
                    f.write_str("")?;
                }
                _ => f.write_str(head)?,
            }
            rest = tail;
        }
        Ok(())
    }
}

pub type Vars = BTreeMap<String, Val>;

/// A context of values that are displayed in pieces.
struct PieceCtx<'a>(&'a Vars, u64);
impl Context for PieceCtx<'_> {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        let seed = self.1;
        match self.0.get(visitor.var_name().as_str()) {
            None | Some(Val::Undef) => visitor.visit_undefined(),
            Some(Val::Str(s)) => visitor.visit_string(Pieces(s, seed)),
            // Each in the three ways there are.
            Some(Val::List(l)) => {
                let items = l.iter().map(|s| Pieces(s, seed));
                match (seed >> 1) % 3 {
                    0 => visitor.visit_list_direct(items),
                    1 => visitor.visit_list().visit_items_and_finish(items),
                    _ => {
                        let mut v = visitor.visit_list();
                        for s in items {
                            if let std::ops::ControlFlow::Break(r) = v.visit_item(s) {
                                return r;
                            }
                        }
                        v.finish()
                    }
                }
            }
            Some(Val::Assoc(l)) => {
                let entries = l.iter().map(|(k, v)| (Pieces(k, seed), Pieces(v, !seed)));
                match (seed >> 1) % 3 {
                    0 => visitor.visit_assoc_direct(entries),
                    1 => visitor.visit_assoc().visit_entries_and_finish(entries),
                    _ => {
                        let mut visitor = visitor.visit_assoc();
                        for (k, v) in entries {
                            if let std::ops::ControlFlow::Break(r) = visitor.visit_entry(k, v) {
                                return r;
                            }
                        }
                        visitor.finish()
                    }
                }
            }
        }
    }
}

/// A dynamic context, not a static one.
struct Dyn<'a>(&'a Vars, RefCell<u64>);
impl DynamicContext for Dyn<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, visitor: V) -> V::Result {
        *self.1.borrow_mut() += 1;
        PieceCtx(self.0, 3).visit(visitor)
    }
}

/// Naively visited fields of many types.
struct Naive {
    a: Option<String>,
    b: Vec<String>,
    c: BTreeMap<String, String>,
    d: BTreeSet<String>,
    e: (),
    f: Option<[String; 2]>,
    n: u64,
    i: i128,
    w: Box<str>,
}
impl_template_context_naive! {
    Naive { a, b, c, d: "x.y", e, f, n, i, w => visit_upper }
}
fn visit_upper<V: Visitor>(v: V, s: &str) -> V::Result {
    v.visit_string(s.to_uppercase())
}

pub fn simple(vars: &Vars) -> SimpleContext {
    let mut ctx = SimpleContext::new();
    for (k, v) in vars {
        match v {
            Val::Undef => ctx.insert(k, Value::Undefined),
            Val::Str(s) => ctx.insert(k, s.as_str()),
            Val::List(l) => ctx.insert(k, Value::List(l.clone())),
            Val::Assoc(l) => ctx.insert(k, Value::Assoc(l.clone())),
        };
    }
    ctx
}

fn typed<S: Spec, C: Context>(t: &UriTemplateStr, ctx: &C, text: &str, iri: bool) -> R {
    macro_rules! ty {
        ($T:ident, $kind:expr) => {
            match $T::<S>::try_from(t.expand::<S, _>(ctx).unwrap()) {
                Ok(v) => {
                    ensure!(rfc::valid($kind, iri, text), "typed", "{t:?} as {}: accepted {text:?}", stringify!($T));
                    ensure_eq!(v.as_str(), text, "typed text", "{t:?} as {}", stringify!($T));
                }
                Err(e) => {
                    ensure!(!rfc::valid($kind, iri, text), "typed", "{t:?} as {}: rejected {text:?}", stringify!($T));
                    ensure_eq!(e.into_source(), text, "typed source", "{t:?} as {}", stringify!($T));
                }
            }
        };
    }
    ty!(RiReferenceString, Kind::Reference);
    ty!(RiString, Kind::Full);
    ty!(RiAbsoluteString, Kind::Absolute);
    ty!(RiRelativeString, Kind::Relative);
    Ok(())
}

fn against<S: Spec, C: Context>(t: &UriTemplateStr, ctx: &mut C, exp: &Result<String, (usize, usize)>, iri: bool, what: &str) -> Result<Option<String>, Fail> {
    let got = t.expand::<S, _>(ctx).map(|e| (e.to_string(), format!("{e}")));
    let out = match (exp, got) {
        (Ok(e), Ok((g, again))) => {
            ensure!(tm::same(e, &g), "expansion", "{t:?} with {what} (iri: {iri}): got {g:?}, expected {e:?}");
            ensure_eq!(g, again, "displayed again", "{t:?} with {what}");
            typed::<S, C>(t, ctx, &g, iri)?;
            Some(g)
        }
        (Err(_), Err(_)) => None,
        (Ok(e), Err(g)) => return fail("expansion fails", format!("{t:?} with {what} (iri: {iri}): got {g}, expected {e:?}")),
        (Err(e), Ok(g)) => return fail("expansion succeeds", format!("{t:?} with {what} (iri: {iri}): got {:?}, expected an error at {e:?}", g.0)),
    };
    dynamic::<S, C>(t, ctx, &out, iri, what)?;
    Ok(out)
}

fn dynamic<S: Spec, C: DynamicContext>(t: &UriTemplateStr, ctx: &mut C, exp: &Option<String>, iri: bool, what: &str) -> R {
    let d = t.expand_dynamic_to_string::<S, _>(ctx).ok();
    ensure_eq!(d, *exp, "dynamic expansion", "{t:?} with {what} (iri: {iri})");
    let mut buf = "before".to_string();
    let r = t.expand_dynamic::<S, _, _>(&mut buf, ctx);
    ensure_eq!(r.is_ok(), exp.is_some(), "dynamic expansion to a writer", "{t:?} with {what} (iri: {iri})");
    if let Some(e) = exp {
        ensure_eq!(buf, format!("before{e}"), "dynamic expansion to a writer", "{t:?} with {what} (iri: {iri})");
    }
    Ok(())
}

fn check<S: Spec>(t: &UriTemplateStr, parts: &[Part], vars: &Vars, seed: u64, iri: bool) -> Result<bool, Fail> {
    let get = |n: &str| vars.get(n).cloned().unwrap_or(Val::Undef);
    let exp = tm::expand(parts, &get, iri);
    let mut ctx = simple(vars);
    let a = against::<S, _>(t, &mut ctx, &exp, iri, "plain values")?;
    let b = against::<S, _>(t, &mut PieceCtx(vars, seed), &exp, iri, "values in pieces")?;
    ensure_eq!(a, b, "pieces", "{t:?} (iri: {iri})");
    dynamic::<S, _>(t, &mut Dyn(vars, RefCell::new(0)), &a, iri, "a dynamic context")?;
    // Literal and unreserved text only: a valid reference fragment (characters), so
    // every character of an expansion is one that may appear in an IRI.
    if let Some(a) = &a {
        let stray = a.char_indices().find(|(i, c)| {
            let stays = rfc::is_unreserved(*c, iri)
                || rfc::is_sub_delim(*c)
                || rfc::is_gen_delim(*c)
                || (iri && rfc::is_iprivate(*c))
                || (*c == '%' && a.as_bytes()[i + 1..].len() >= 2 && a.as_bytes()[i + 1..i + 3].iter().all(u8::is_ascii_hexdigit));
            !stays
        });
        ensure!(stray.is_none(), "stray character", "{t:?} (iri: {iri}): {a:?} has {stray:?}");
    }
    Ok(exp.is_ok())
}

fn naive(src: &mut Src, cx: &mut Cx) -> R {
    let n = Naive {
        a: src.bool().then(|| tm::value_text(src)),
        b: (0..src.small_len(4)).map(|_| tm::value_text(src)).collect(),
        c: (0..src.small_len(4)).map(|_| (tm::value_text(src), tm::value_text(src))).collect(),
        d: (0..src.small_len(4)).map(|_| tm::value_text(src)).collect(),
        e: (),
        f: src.bool().then(|| [tm::value_text(src), tm::value_text(src)]),
        n: src.below(100_000),
        i: i128::from(src.below(2000)) - 1000,
        w: tm::value_text(src).into(),
    };
    let mut vars = Vars::new();
    vars.insert("a".into(), n.a.clone().map_or(Val::Undef, Val::Str));
    vars.insert("b".into(), Val::List(n.b.clone()));
    vars.insert("c".into(), Val::Assoc(n.c.clone().into_iter().collect()));
    vars.insert("x.y".into(), Val::List(n.d.iter().cloned().collect()));
    vars.insert("f".into(), n.f.clone().map_or(Val::Undef, |f| Val::List(f.to_vec())));
    vars.insert("n".into(), Val::Str(n.n.to_string()));
    vars.insert("i".into(), Val::Str(n.i.to_string()));
    vars.insert("w".into(), Val::Str(n.w.to_uppercase()));
    let names: Vec<String> = vars.keys().cloned().chain(["e".into(), "d".into()]).collect();
    let text = tm::template(src, &names, 4);
    cx.describe(format_args!("{text:?} with a struct of {vars:?}"));
    let t = UriTemplateStr::new(&text).map_err(|e| Fail { kind: "template".into(), detail: format!("{text:?}: {e}") })?;
    let parts = tm::read(&text);
    let get = |n: &str| vars.get(n).cloned().unwrap_or(Val::Undef);
    let mut n = n;
    against::<IriSpec, _>(t, &mut n, &tm::expand(&parts, &get, true), true, "a struct")?;
    against::<UriSpec, _>(t, &mut n, &tm::expand(&parts, &get, false), false, "a struct")?;
    cx.mark(text.contains('{'), "fields of a struct");
    Ok(())
}

/// Values of the enumerated part, all assigned to one name.
fn small_values() -> Vec<Val> {
    let texts = ["", "a", "\u{E9}b", "%41c", "%E3%81%82d", "%C3x", "%", "%4", "/ \u{E000}", "%25\u{3042}%"];
    let mut v: Vec<Val> = texts.iter().map(|t| Val::Str(t.to_string())).collect();
    v.push(Val::Undef);
    for l in [vec![], vec![""], vec!["a"], vec!["", ""], vec!["\u{E9}", "%41"], vec!["a", "", "b/"]] {
        v.push(Val::List(l.iter().map(|s| s.to_string()).collect()));
    }
    for l in [vec![], vec![("", "")], vec![("k", "")], vec![("k", "v")], vec![("k", "\u{E9}"), ("/", "%41")], vec![("", "x"), ("k", "")]] {
        v.push(Val::Assoc(l.iter().map(|(k, s)| (k.to_string(), s.to_string())).collect()));
    }
    v
}

pub fn case(src: &mut Src) -> (String, Vars) {
    let n = 1 + src.small_len(4);
    let names: Vec<String> = (0..n).map(|_| tm::varname(src)).collect();
    let vars: Vars = names.iter().map(|n| (n.clone(), tm::value(src))).collect();
    let mut text = tm::template(src, &names, 4);
    if text.is_empty() {
        text = format!("{{{}}}", names[0]);
    }
    (text, vars)
}

/// All characters of a block of 256, as a value, under every operator.
fn block(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("values of one character U+{:04X}..=U+{:04X}", b * 256, b * 256 + 255));
    let text: String = tm::OPS.iter().map(|o| format!("{{{}v,v:1}}", o.map(String::from).unwrap_or_default())).collect();
    let t = UriTemplateStr::new(&text).unwrap();
    let parts = tm::read(&text);
    let mut any = false;
    for c in (b * 256..b * 256 + 256).filter_map(|c| char::from_u32(c as u32)) {
        let v = Val::Str(format!("{c}{c}"));
        let ctx = simple(&Vars::from([("v".to_string(), v.clone())]));
        for iri in [true, false] {
            let exp = tm::expand(&parts, &|_| v.clone(), iri).unwrap();
            let got = if iri {
                t.expand::<IriSpec, _>(&ctx).map(|e| e.to_string())
            } else {
                t.expand::<UriSpec, _>(&ctx).map(|e| e.to_string())
            };
            ensure!(got.as_ref().is_ok_and(|g| tm::same(&exp, g)), "expansion", "{text:?} with {v:?} (iri: {iri}): got {got:?}, expected {exp:?}");
        }
        any = true;
    }
    cx.mark(any, "block of 256 characters");
    Ok(())
}

/// All prefix lengths of a block of 100, with values as long, one longer and one shorter.
fn prefixes(b: u64, cx: &mut Cx) -> R {
    cx.describe(format_args!("prefixes of {}..={}", b * 100, b * 100 + 99));
    for n in (b * 100).max(1)..b * 100 + 100 {
        let text = if n > 300 && n % 2 == 1 { format!("{{v:{n}}}") } else { format!("{{+v:{n}}}") };
        let t = UriTemplateStr::new(&text).map_err(|e| Fail { kind: "template".into(), detail: format!("{text:?}: {e}") })?;
        let parts = tm::read(&text);
        for len in [n + 1, n, n - 1].into_iter().take(if n > 300 { 1 } else { 3 }) {
            let v = Val::Str("a".repeat(len as usize));
            let ctx = simple(&Vars::from([("v".to_string(), v.clone())]));
            let exp = tm::expand(&parts, &|_| v.clone(), false).unwrap();
            let got = t.expand::<UriSpec, _>(&ctx).map(|e| e.to_string());
            ensure!(got.as_ref().is_ok_and(|g| tm::same(&exp, g)), "expansion", "{text:?} with {len} letters: {} letters", got.map_or(0, |g| g.len()));
        }
    }
    cx.mark(true, "block of 100 prefix lengths");
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (text, vars, seed) = match src.weighted(&[100, 3000, 400, 1, 1]) {
        0 => {
            // One operator and modifier with one small value between two others.
            let op = src.pick_c(&tm::OPS);
            let modifier = src.pick_c(&[Mod::None, Mod::Explode, Mod::Prefix(1), Mod::Prefix(2)]);
            let vals = small_values();
            let mut vars = Vars::new();
            vars.insert("v".into(), vals[src.idx(vals.len())].clone());
            vars.insert("w".into(), vals[src.idx(vals.len())].clone());
            let spec = |n: &str, m| tm::Spec { name: n.into(), modifier: m };
            let p = Part::Expr(op, vec![spec("v", modifier), spec("u", Mod::None), spec("w", Mod::Explode)]);
            let seed = src.below(4);
            (format!("x{}y", tm::show_part(&p)), vars, seed)
        }
        1 => {
            let (t, v) = case(src);
            (t, v, src.below(1 << 32))
        }
        2 => return naive(src, cx),
        3 => {
            let b = src.below(0x1100);
            return block(b, cx);
        }
        _ => {
            let b = src.below(100);
            return prefixes(b, cx);
        }
    };
    cx.describe(format_args!("{text:?} with {vars:?} in pieces of seed {seed}"));
    let t = UriTemplateStr::new(&text).map_err(|e| Fail { kind: "template".into(), detail: format!("{text:?}: {e}") })?;
    let parts = tm::read(&text);
    let back: String = parts.iter().map(tm::show_part).collect();
    ensure_eq!(back, text, "harness: template reader", "{text:?}");
    let ok = check::<IriSpec>(t, &parts, &vars, seed, true)?;
    check::<UriSpec>(t, &parts, &vars, seed, false)?;

    let used: Vec<(Option<char>, &tm::Spec, &Val)> = parts
        .iter()
        .filter_map(|p| match p {
            Part::Expr(op, s) => Some(s.iter().filter_map(|s| vars.get(&s.name).map(|v| (*op, s, v))).collect::<Vec<_>>()),
            _ => None,
        })
        .flatten()
        .collect();
    let any = |f: &dyn Fn(Option<char>, &tm::Spec, &Val) -> bool| used.iter().any(|(o, s, v)| f(*o, s, v));
    let reserved = |o: Option<char>| matches!(o, Some('+' | '#'));
    let contains = |v: &Val, c: char| match v {
        Val::Str(s) => s.contains(c),
        Val::List(l) => l.iter().any(|s| s.contains(c)),
        Val::Assoc(l) => l.iter().any(|(k, s)| k.contains(c) || s.contains(c)),
        Val::Undef => false,
    };
    cx.mark(ok && any(&|_, _, v| v.defined()), "a defined value is expanded");
    cx.mark(!ok, "prefix modifier on a composite value");
    if ok {
        if any(&|o, s, v| matches!((v, s.modifier), (Val::Str(t), Mod::Prefix(n)) if t.chars().count() > n) && reserved(o)) {
            cx.label("cut by a prefix modifier (reserved)");
        }
        if any(&|o, s, v| matches!((v, s.modifier), (Val::Str(t), Mod::Prefix(n)) if t.chars().count() > n) && !reserved(o)) {
            cx.label("cut by a prefix modifier");
        }
        if any(&|_, s, v| s.modifier == Mod::Explode && v.nonempty_composite()) {
            cx.label("exploded");
        }
        if any(&|o, _, v| reserved(o) && contains(v, '%')) {
            cx.label("percent sign in a reserved expansion");
        }
        if any(&|o, _, v| matches!(o, Some(';' | '?' | '&')) && v.defined()) {
            cx.label("named");
        }
        if any(&|_, _, v| matches!(v, Val::Str(s) if s.is_empty())) {
            cx.label("empty string");
        }
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = small_values().len() as u64;
    let step = if thorough { 1 } else { 8 };
    let blocks = (0..0x1100u64).filter(move |b| *b < 0x30 || b % step == 0 || (b * 256..b * 256 + 256).any(crate::gen::near_edge)).map(|b| vec![3500, b]);
    let prefixes = (0..100u64).map(|b| vec![3501, b]);
    Box::new(prefixes.chain(blocks).chain((0..8u64).flat_map(move |o| {
        (0..4u64).flat_map(move |m| (0..n).flat_map(move |v| (0..n).map(move |w| vec![0, o, m, v, w, (v + w) % 4])))
    })))
}

pub static PROP: Prop = Prop {
    id: "C15",
    quick: 320_000,
    thorough: 5_000_000,
    rule: "Each case is one template and one assignment of values to its variables, expanded statically and dynamically, with whole values and \
           with values displayed in random pieces, in both repertoires, and compared with the RFC 6570 algorithm; or a struct visited \
           field by field. Enumerated: every operator and modifier with every pair out of 24 small values, every prefix length, and values of one character (one \
           block of 256 in 8, and those with an edge of a class; thorough: all). Non-trivial: a defined value is \
           expanded, or a prefix modifier meets a composite value.",
    run,
    enumerate,
    must_reach: &[
        ("a defined value is expanded", 2350),
        ("prefix modifier on a composite value", 500),
        ("cut by a prefix modifier (reserved)", 80),
        ("cut by a prefix modifier", 240),
        ("exploded", 600),
        ("percent sign in a reserved expansion", 380),
        ("named", 1000),
        ("empty string", 270),
        ("fields of a struct", 310),
    ],
    assumptions: &[
        "keys of exploded associative arrays are encoded like values (RFC 6570 names them literally; see DESIGN.md)",
        "both forms are accepted where RFC 6570 leaves `=` open: a non-exploded composite value whose members join to nothing, with `;`",
    ],
};
