//! C17: the simple context is a map.

use std::collections::BTreeMap;

use iri_string::spec::UriSpec;
use iri_string::template::context::VarName;
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::UriTemplateStr;

use crate::engine::*;
use crate::gen;
use crate::tplmodel::{self as tm, Val};

fn val(v: Option<&Value>) -> Val {
    match v {
        None => Val::Undef,
        Some(Value::Undefined) => Val::Str("(stored undefined)".into()),
        Some(Value::String(s)) => Val::Str(s.clone()),
        Some(Value::List(l)) => Val::List(l.clone()),
        Some(Value::Assoc(l)) => Val::Assoc(l.clone()),
    }
}

const KEYS: [&str; 12] = ["a", "b", "A", "a.b", "ab", "%41", "%c3", "%C3", "_", "0", "a.b.c", "list"];
const BAD: [&str; 12] = ["", "a b", "a..b", ".a", "a.", "%", "%4", "\u{E9}", "a*", "a:1", "{a}", "a,b"];

/// A name: one of the usual ones, or any other (which can be a long one).
fn key(src: &mut Src) -> String {
    match src.weighted(&[30, 1]) {
        0 => src.pick(&KEYS).to_string(),
        _ => tm::varname(src),
    }
}

fn compare(c: &SimpleContext, m: &BTreeMap<String, Val>, history: &str) -> R {
    for k in KEYS.into_iter().chain(m.keys().map(String::as_str)) {
        let got = val(c.get(VarName::new(k).unwrap()));
        ensure_eq!(got, m.get(k).cloned().unwrap_or(Val::Undef), "get", "{k:?} after {history}");
    }
    let more: String = m.keys().map(|k| format!(",{k}")).collect();
    for text in [format!("{{?{}}}", KEYS.map(|k| format!("{k}*")).join(",")), format!("{{{}{more}}}", KEYS.join(","))] {
        let t = UriTemplateStr::new(&text).unwrap();
        let exp = tm::expand(&tm::read(&text), &|n| m.get(n).cloned().unwrap_or(Val::Undef), false).unwrap();
        let got = t.expand::<UriSpec, _>(c).map(|e| e.to_string());
        ensure!(got.as_ref().is_ok_and(|g| tm::same(&exp, g)), "expansion", "{text:?} after {history}: got {got:?}, expected {exp:?}");
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let mut all: Vec<(SimpleContext, BTreeMap<String, Val>)> = vec![(SimpleContext::new(), BTreeMap::new())];
    let n = match src.weighted(&[1, 3]) {
        0 => src.range(0, 4),
        _ => src.range(1, 16),
    };
    let mut history = String::new();
    let (mut replaced, mut removed, mut bad, mut cleared, mut bulk) = (false, false, false, false, false);
    for _ in 0..n {
        let i = src.idx(all.len());
        match src.weighted(&[120, 40, 30, 10, 20, 1]) {
            0 => {
                let k = key(src);
                let v = match tm::value(src) {
                    Val::Undef => Val::Str("x".into()),
                    v => v,
                };
                history.push_str(&format!("[{i}].insert({k:?}, {v:?}) "));
                let (c, m) = &mut all[i];
                let old = match &v {
                    Val::Str(s) if src.bool() => c.insert(k.as_str(), s.as_str()),
                    Val::Str(s) if src.bool() => c.insert(k.clone(), s.clone()),
                    Val::Str(s) => c.insert(k.as_str(), Value::String(s.clone())),
                    Val::List(l) => c.insert(k.as_str(), Value::List(l.clone())),
                    Val::Assoc(l) => c.insert(k.as_str(), Value::Assoc(l.clone())),
                    Val::Undef => unreachable!(),
                };
                let exp = m.insert(k, v);
                replaced |= exp.is_some();
                ensure_eq!(val(old.as_ref()), exp.unwrap_or(Val::Undef), "replaced value", "{history}");
            }
            1 => {
                let other = all[i].1.keys().nth(src.idx(all[i].1.len().max(1))).cloned();
                let k = match other {
                    Some(k) if src.bool() => k,
                    _ => key(src),
                };
                history.push_str(&format!("[{i}].insert({k:?}, undefined) "));
                let (c, m) = &mut all[i];
                let old = c.insert(k.as_str(), Value::Undefined);
                let exp = m.remove(&k);
                removed |= exp.is_some();
                ensure_eq!(val(old.as_ref()), exp.unwrap_or(Val::Undef), "removed value", "{history}");
            }
            2 => {
                let k = src.pick(&BAD);
                history.push_str(&format!("[{i}].insert({k:?}) "));
                bad = true;
                let old = all[i].0.insert(k, "bad");
                ensure!(old.is_none(), "bad key", "{history}: {old:?}");
                let old = all[i].0.insert(k, Value::Undefined);
                ensure!(old.is_none(), "bad key removed", "{history}: {old:?}");
            }
            3 => {
                history.push_str(&format!("[{i}].clear() "));
                cleared |= !all[i].1.is_empty();
                all[i].0.clear();
                all[i].1.clear();
            }
            5 => {
                // Many names at once.
                let many = gen::long_len(src, 8);
                let (prefix, step) = (src.pick(&["n", "a", "zz.", "%41", "9"]), src.range(1, 7));
                history.push_str(&format!("[{i}].insert({many} names {prefix}..) "));
                bulk = true;
                let (c, m) = &mut all[i];
                for j in 0..many as u64 {
                    let (k, v) = (format!("{prefix}{}", j * step), format!("v{j}"));
                    let old = c.insert(k.as_str(), v.as_str());
                    let exp = m.insert(k, Val::Str(v));
                    ensure_eq!(val(old.as_ref()), exp.unwrap_or(Val::Undef), "replaced value", "{history}");
                }
            }
            _ => {
                history.push_str(&format!("clone [{i}] "));
                let c = match src.chance(1, 8) {
                    true => (SimpleContext::default(), BTreeMap::new()),
                    false => all[i].clone(),
                };
                if all.len() < 4 {
                    all.push(c);
                } else {
                    let k = src.idx(4);
                    all[k] = c;
                }
            }
        }
        for (c, m) in &all {
            compare(c, m, &history)?;
        }
    }
    cx.describe(&history);
    cx.mark(replaced, "replaces a value");
    cx.mark(removed, "removes a value");
    cx.mark(bad, "key that is not a variable name");
    cx.mark(cleared, "clears a non-empty context");
    cx.mark(bulk, "many names");
    cx.mark(all.len() > 1, "several contexts");
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C17",
    quick: 180_000,
    thorough: 2_000_000,
    rule: "Each case is a history of up to 16 operations on up to 4 contexts (clones of each other), all of them compared with map models \
           after each step by lookup of 12 names and of all present ones and by two expansions. Non-trivial: some value is replaced, removed or cleared, \
           a context is cloned, or a bad name is inserted.",
    run,
    enumerate: no_enum,
    must_reach: &[
        ("replaces a value", 1260),
        ("removes a value", 590),
        ("key that is not a variable name", 2170),
        ("clears a non-empty context", 800),
        ("several contexts", 2000),
        ("many names", 150),
    ],
    assumptions: &[],
};
