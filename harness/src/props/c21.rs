//! C21: one answer in every build configuration.
//!
//! `harness/transcript` is built in the configurations below against /repo; each
//! worker keeps one process of each and asks all of them the same.

use std::cell::RefCell;
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

use super::c15;
use crate::engine::*;
use crate::gen;
use crate::peer::{request, Peer};
use crate::rfc::Kind;
use crate::tplmodel::Val;

struct Config {
    name: &'static str,
    features: &'static str,
    release: bool,
}
const CONFIGS: &[Config] = &[
    Config { name: "std-dev", features: "std", release: false },
    Config { name: "none-dev", features: "", release: false },
    Config { name: "none-release", features: "", release: true },
    Config { name: "alloc-release", features: "alloc", release: true },
    Config { name: "std-release", features: "std", release: true },
    Config { name: "memchr-dev", features: "memchr", release: false },
    Config { name: "memchr-alloc-release", features: "memchr,alloc", release: true },
    Config { name: "serde-dev", features: "serde", release: false },
    Config { name: "all-release", features: "std,memchr,serde", release: true },
];
impl Config {
    fn alloc(&self) -> bool {
        self.features.contains("alloc") || self.features.contains("std")
    }
}

/// Builds all configurations: paths of the programs, or what does not build.
fn programs() -> &'static Result<Vec<PathBuf>, String> {
    static P: OnceLock<Result<Vec<PathBuf>, String>> = OnceLock::new();
    P.get_or_init(|| {
        let dir = verif_dir().join("harness/transcript");
        std::thread::scope(|s| {
            let hs: Vec<_> = CONFIGS
                .iter()
                .map(|c| {
                    let dir = &dir;
                    s.spawn(move || {
                        let target = dir.join("target").join(c.name);
                        let mut cmd = Command::new("cargo");
                        cmd.args(["build", "--bin", "transcript", "--offline", "--locked", "--no-default-features", "--features", c.features]);
                        cmd.arg("--manifest-path").arg(dir.join("Cargo.toml")).arg("--target-dir").arg(&target);
                        if c.release {
                            cmd.arg("--release");
                        }
                        match cmd.output() {
                            Ok(o) if o.status.success() => {
                                Ok(target.join(if c.release { "release" } else { "debug" }).join("transcript"))
                            }
                            Ok(o) => {
                                let log = String::from_utf8_lossy(&o.stderr).into_owned();
                                let start = log.find("error").unwrap_or(0);
                                Err(format!("features [{}], {}: {}", c.features, c.name, log[start..].chars().take(600).collect::<String>()))
                            }
                            Err(e) => panic!("cargo does not run: {e}"),
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    })
}

thread_local! {
    static PEERS: RefCell<Vec<Peer>> = const { RefCell::new(Vec::new()) };
}

fn ask(request: &str) -> Result<Vec<(String, String)>, Fail> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            *p = programs().as_ref().unwrap().iter().map(|x| Peer::start(Command::new(x))).collect();
        }
        for x in p.iter_mut() {
            x.send(request);
        }
        let mut out = Vec::new();
        for (i, x) in p.iter_mut().enumerate() {
            match x.answer() {
                Ok(line) => {
                    let (a, b) = line.split_once('\t').expect("answer");
                    out.push((a.to_string(), b.to_string()));
                }
                Err(e) => {
                    p.clear();
                    return fail("no answer", format!("the program built as {} ended: {e}", CONFIGS[i].name));
                }
            }
        }
        Ok(out)
    })
}

fn compare(a: &str, b: &str, x: &Config, y: &Config) -> R {
    if a == b {
        return Ok(());
    }
    let diff = a.split(';').zip(b.split(';')).find(|(p, q)| p != q).unwrap_or((a, b));
    fail("configurations differ", format!("{} says {:?}, {} says {:?}", x.name, diff.0, y.name, diff.1))
}

/// A request: its kind and its texts.
pub fn case(src: &mut Src, cx: &mut Cx) -> (&'static str, Vec<String>) {
    const SYM: [&str; 12] = ["s", ":", "/", "#", "?", ".", "@", "[::1]", "%c3", "%", "\u{E9}", "+-"];
    match src.weighted(&[1, 10, 5, 4, 5]) {
        m @ (0 | 1) => {
            let s = if m == 0 {
                gen::over(src, &SYM, 6)
            } else {
                match src.weighted(&[6, 3, 2]) {
                    0 => {
                        let iri = src.bool();
                        let k = src.pick_c(&[Kind::Reference, Kind::Full, Kind::Absolute, Kind::Relative, Kind::Query, Kind::Authority, Kind::Host]);
                        gen::valid_ref(src, iri, k)
                    }
                    1 => {
                        let iri = src.bool();
                        let s = gen::valid_ref(src, iri, Kind::Reference);
                        gen::mutate(src, &s, 2)
                    }
                    _ => gen::soup(src, 12),
                }
            };
            let alt = if m == 0 { "h".to_string() } else { gen::host_any(src, true) };
            cx.mark(m == 1 && s.contains("//"), "reference with an authority");
            cx.mark(m == 1 && !s.is_ascii(), "text with non-ASCII characters");
            cx.mark(m == 1 && s.len() > 40, "text longer than 40 bytes");
            cx.mark(!s.is_empty(), "text");
            ("text", vec![s, alt])
        }
        2 => {
            let iri = src.bool();
            cx.mark(true, "resolution");
            ("resolve", vec![gen::valid_ref(src, iri, Kind::Absolute), gen::valid_ref(src, iri, Kind::Reference)])
        }
        3 => {
            let iri = src.bool();
            let mut f = Vec::new();
            for i in 0..7 {
                let v = match i {
                    0 => gen::scheme(src),
                    1 => gen::userinfo(src, iri),
                    2 => gen::host_any(src, iri),
                    3 => gen::port(src),
                    4 if src.bool() => gen::dotty_path(src),
                    4 => gen::path(src, iri),
                    5 => gen::query(src, iri),
                    _ => gen::fragment(src, iri),
                };
                f.push(format!("{}{v}", if src.bool() { '+' } else { '-' }));
            }
            cx.mark(true, "composition");
            ("compose", f)
        }
        _ => {
            let (text, vars) = c15::case(src);
            let mut f = vec![text];
            for (k, v) in vars {
                let (ty, texts) = match v {
                    Val::Undef => continue,
                    Val::Str(s) => ("s", vec![s]),
                    Val::List(l) => ("l", l),
                    Val::Assoc(l) => ("a", l.into_iter().flat_map(|(k, v)| [k, v]).collect()),
                };
                f.extend([ty.to_string(), k, texts.len().to_string()]);
                f.extend(texts);
            }
            cx.mark(f.len() > 1, "template with values");
            ("template", f)
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    if let Err(e) = programs() {
        cx.describe("building");
        return fail("does not build", e.clone());
    }
    let (kind, fields) = case(src, cx);
    cx.describe(format_args!("{kind} {fields:?}"));
    let answers = ask(&request(kind, &fields))?;
    ensure!(answers[0].0 != "panic", "panic", "in {}", CONFIGS[0].name);
    for (c, a) in CONFIGS.iter().zip(&answers).skip(1) {
        compare(&answers[0].0, &a.0, &CONFIGS[0], c)?;
        if c.alloc() {
            compare(&answers[0].1, &a.1, &CONFIGS[0], c)?;
        }
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(gen::all_over(vec![0], 12, if thorough { 5 } else { 3 }))
}

pub static PROP: Prop = Prop {
    id: "C21",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "A program that says everything about a text, a resolution, a composition or an expansion is built in nine configurations (features \
           none, alloc, std, memchr, serde and their combinations; with and without optimization and debug assertions). Each case is one request to \
           all of them; the answers must be the same. Enumerated: all strings of up to 3 (5) of 12 symbols. Non-trivial: the text is not \
           empty, or there is a resolution, a composition or a template with values.",
    run,
    enumerate,
    must_reach: &[
        ("reference with an authority", 400),
        ("text with non-ASCII characters", 400),
        ("text longer than 40 bytes", 100),
        ("resolution", 500),
        ("composition", 500),
        ("template with values", 500),
    ],
    assumptions: &["the target is the one of the sandbox (64-bit Linux)"],
};
