//! C16: variables of templates and the history of context callbacks.

use std::cell::RefCell;
use std::fmt;

use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{Context, DynamicContext, VarName, VisitPurpose, Visitor};
use iri_string::template::UriTemplateStr;

use crate::engine::*;
use crate::gen;
use crate::props::c15::{case, simple, Vars};
use crate::tplmodel::{self as tm, Part, Val};

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Start,
    End,
    Check(String),
    Expand(String),
    Other(String),
}
fn event<V: Visitor>(v: &V) -> Ev {
    let n = v.var_name().as_str().to_string();
    match v.purpose() {
        VisitPurpose::Typecheck => Ev::Check(n),
        VisitPurpose::Expand => Ev::Expand(n),
        _ => Ev::Other(n),
    }
}

/// A static context that keeps a log.
struct Log<'a> {
    inner: &'a iri_string::template::simple_context::SimpleContext,
    log: RefCell<Vec<Ev>>,
}
impl Context for Log<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        self.log.borrow_mut().push(event(&v));
        self.inner.visit(v)
    }
}
/// A dynamic context that keeps a log.
struct DynLog<'a> {
    inner: &'a iri_string::template::simple_context::SimpleContext,
    log: Vec<Ev>,
}
impl DynamicContext for DynLog<'_> {
    fn on_expansion_start(&mut self) {
        self.log.push(Ev::Start);
    }
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        self.log.push(event(&v));
        self.inner.visit(v)
    }
    fn on_expansion_end(&mut self) {
        self.log.push(Ev::End);
    }
}

/// Takes up to `limit` bytes, then fails.
struct Sink {
    got: String,
    limit: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.limit {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn expands(log: &[Ev]) -> Vec<String> {
    log.iter()
        .filter_map(|e| match e {
            Ev::Expand(n) => Some(n.clone()),
            _ => None,
        })
        .collect()
}

/// A log of one dynamic expansion: framed by start and end; visits of known variables
/// only; those to expand are `vars` (all of them, or so far).
fn framed(log: &[Ev], vars: &[String], complete: bool, what: &str) -> R {
    let (first, last) = (log.first(), log.last());
    ensure!(first == Some(&Ev::Start) && last == Some(&Ev::End) && log.len() >= 2, "frame", "{what}: {log:?}");
    let inner = &log[1..log.len() - 1];
    ensure!(!inner.contains(&Ev::Start) && !inner.contains(&Ev::End), "frame", "{what}: {log:?}");
    for e in inner {
        if let Ev::Check(n) | Ev::Other(n) = e {
            ensure!(vars.contains(n), "foreign variable", "{what}: {log:?}");
        }
    }
    let got = expands(inner);
    ensure!(
        if complete { got == vars } else { vars.starts_with(&got) },
        "visits",
        "{what}: got {got:?}, expected {} {vars:?}",
        if complete { "exactly" } else { "a prefix of" }
    );
    Ok(())
}

fn check<S: Spec>(src: &mut Src, cx: &mut Cx, t: &UriTemplateStr, parts: &[Part], vars: &Vars, iri: bool) -> R {
    let names = tm::variables(parts);
    let get = |n: &str| vars.get(n).cloned().unwrap_or(Val::Undef);
    let exp = tm::expand(parts, &get, iri);
    let ctx = simple(vars);

    // Static.
    let log = Log { inner: &ctx, log: RefCell::default() };
    let e = t.expand::<S, _>(&log);
    ensure!(expands(&log.log.borrow()).is_empty(), "expansion before display", "{t:?}: {:?}", log.log);
    if let Ok(e) = e {
        for round in 0..2 {
            log.log.borrow_mut().clear();
            let _ = e.to_string();
            ensure_eq!(expands(&log.log.borrow()), names, "static visits", "{t:?} displayed {round}");
        }
        let full = e.to_string();
        if !full.is_empty() {
            // A sink that fails.
            log.log.borrow_mut().clear();
            let limit = src.idx(full.len());
            let mut sink = Sink { got: String::new(), limit };
            let r = fmt::Write::write_fmt(&mut sink, format_args!("{e}"));
            ensure!(r.is_err(), "sink error", "{t:?} with a sink of {limit} bytes");
            ensure!(names.starts_with(&expands(&log.log.borrow())), "static visits (failing sink)", "{t:?}: {:?}", log.log);
            ensure!(full.starts_with(&sink.got), "written part", "{t:?}: {:?} of {full:?}", sink.got);
        }
    }

    // Dynamic.
    let mut d = DynLog { inner: &ctx, log: vec![] };
    let r = t.expand_dynamic_to_string::<S, _>(&mut d);
    ensure_eq!(r.is_ok(), exp.is_ok(), "outcome", "{t:?}");
    framed(&d.log, &names, exp.is_ok(), "expand_dynamic_to_string")?;
    let full = r.unwrap_or_default();
    // Used again, with a sink that may fail.
    d.log.clear();
    let limit = if src.chance(1, 4) { full.len() } else { src.idx(full.len() + 1) };
    let mut sink = Sink { got: String::new(), limit };
    let r = t.expand_dynamic::<S, _, _>(&mut sink, &mut d);
    if exp.is_ok() {
        ensure_eq!(r.is_ok(), limit >= full.len(), "sink error", "{t:?} with a sink of {limit} bytes for {full:?}");
        ensure!(full.starts_with(&sink.got), "written part", "{t:?}: {:?} of {full:?}", sink.got);
        if r.is_err() {
            cx.mark(!names.is_empty(), "failing sink");
        }
    } else {
        ensure!(r.is_err(), "outcome", "{t:?}");
    }
    framed(&d.log, &names, r.is_ok(), "expand_dynamic")?;
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let (text, vars) = match src.weighted(&[1, 12]) {
        0 => {
            const SYM: [&str; 8] = ["{a}", "{a,b}", "{+a*}", "{b:1,a}", "x", "{?b,b,c}", "%7B", "{%7B.x}"];
            let mut v = Vars::new();
            v.insert("a".into(), src.pick_c(&[0, 1, 2]).pipe());
            v.insert("b".into(), src.pick_c(&[0, 1, 2]).pipe());
            (gen::over(src, &SYM, 6), v)
        }
        _ => case(src),
    };
    cx.describe(format_args!("{text:?} with {vars:?}"));
    let t = UriTemplateStr::new(&text).map_err(|e| Fail { kind: "template".into(), detail: format!("{text:?}: {e}") })?;
    let parts = tm::read(&text);
    let names = tm::variables(&parts);

    let got: Vec<String> = t.variables().map(|v| v.as_str().to_string()).collect();
    ensure_eq!(got, names, "variables", "{text:?}");
    let mut it = t.variables();
    for (i, n) in names.iter().enumerate() {
        let copy: Vec<_> = it.clone().map(|v| v.as_str().to_string()).collect();
        ensure_eq!(copy, names[i..], "clone of the iterator", "{text:?} at {i}");
        let v = it.next().unwrap();
        ensure_eq!(Ok(v), VarName::new(v.as_str()), "variable name", "{text:?}: {n}");
    }
    ensure!(it.next().is_none() && it.next().is_none(), "fused", "{text:?}");

    check::<IriSpec>(src, cx, t, &parts, &vars, true)?;
    check::<UriSpec>(src, cx, t, &parts, &vars, false)?;
    cx.mark(names.len() > 1, "several variables");
    let mut d = names.clone();
    d.sort();
    d.dedup();
    cx.mark(d.len() < names.len(), "a variable appears again");
    let get = |n: &str| vars.get(n).cloned().unwrap_or(Val::Undef);
    cx.mark(tm::expand(&parts, &get, true).is_err(), "fails on a type");
    Ok(())
}

trait Pipe {
    fn pipe(self) -> Val;
}
impl Pipe for i32 {
    fn pipe(self) -> Val {
        match self {
            0 => Val::Undef,
            1 => Val::Str("s/".into()),
            _ => Val::List(vec!["l".into(), "m".into()]),
        }
    }
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 5 } else { 4 };
    Box::new((0..9u64).flat_map(move |k| gen::all_over(vec![0, k / 3, k % 3], 8, n)))
}

pub static PROP: Prop = Prop {
    id: "C16",
    quick: 600_000,
    thorough: 6_000_000,
    rule: "Each case is one template and one context: the variables it reports, and the callback history of a static expansion displayed \
           three times and of two dynamic expansions, into sinks that fail at random places. Enumerated: all sequences of up to 4 (5) \
           of 8 pieces with 9 contexts. Non-trivial: several variables, a failing sink, or a type failure.",
    run,
    enumerate,
    must_reach: &[
        ("several variables", 4000),
        ("a variable appears again", 2000),
        ("fails on a type", 800),
        ("failing sink", 2500),
    ],
    assumptions: &["visits for type checking are not specified beyond naming variables of the template (documented as such)"],
};
