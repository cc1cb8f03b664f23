//! C22: allocation failures are reported, not fatal, and leave values intact.
//!
//! The operations run in the program `oom`, one process per worker, whose allocator
//! fails on demand: a failure that is not reported as an error ends that process.

use std::cell::RefCell;
use std::process::Command;

use crate::engine::*;
use crate::gen;
use crate::peer::Peer;
use crate::rfc::Kind;

thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// Numbers of operations and of injected failures.
fn ask(fields: &[&str]) -> Result<(u64, u64), Fail> {
    let request: Vec<String> = fields.iter().map(|s| s.bytes().map(|b| format!("{b:02x}")).collect()).collect();
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let x = p.get_or_insert_with(|| Peer::start(Command::new(std::env::current_exe().unwrap().with_file_name("oom"))));
        x.send(&format!("{}\n", request.join(" ")));
        let line = match x.answer() {
            Ok(l) => l,
            Err(e) => {
                *p = None;
                return fail("ends the program", e);
            }
        };
        let v: Vec<&str> = line.splitn(3, '\t').collect();
        match v[..] {
            ["ok", n, m] => Ok((n.parse().unwrap(), m.parse().unwrap())),
            ["bad", kind, detail] => fail(kind, detail),
            _ => panic!("answer {line:?}"),
        }
    })
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let iri = src.bool();
    let kind = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative, Kind::Query]);
    let s = match (kind, src.chance(1, 8)) {
        (Kind::Query, _) => gen::query(src, iri),
        (_, true) => gen::maybe(src, iri, kind),
        _ => gen::valid_ref(src, iri, kind),
    };
    let base = gen::valid_ref(src, iri, Kind::Absolute);
    let host = gen::host_any(src, iri);
    let template = src.pick(&["{a}", "x{+a}", "{?a,b*}", "{/b}{a:3}", ""]);
    cx.describe(format_args!("{s:?}, base {base:?}, host {host:?}, {template:?}"));
    if [&s, &base, &host].iter().any(|x| x.len() > 5000) {
        cx.label("too long (no check)");
        return Ok(());
    }
    let (ops, injected) = ask(&[&s, &base, &host, template])?;
    cx.mark(injected > 0, "an allocation failed");
    if ops > 20 {
        cx.label("more than 20 operations");
    }
    if !s.is_ascii() {
        cx.label("non-ASCII text");
    }
    if s.contains("//") {
        cx.label("reference with an authority");
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C22",
    quick: 40_000,
    thorough: 1_000_000,
    rule: "Each case is a text, a base, a host and a template. Every `try_*` operation that applies to them is run once for each allocation that it \
           makes, with that allocation failing, alone and together with all later ones, in a program of its own. Non-trivial: at \
           least one allocation was made to fail.",
    run,
    enumerate: no_enum,
    must_reach: &[
        ("an allocation failed", 5000),
        ("more than 20 operations", 2000),
        ("non-ASCII text", 500),
        ("reference with an authority", 1000),
    ],
    assumptions: &["what an allocator does on failure is modelled as returning null"],
};
