//! C23: safe operations keep to the rules of memory.
//!
//! The program `safety` of `harness/transcript` does everything a request asks for and more
//! (shared and boxed values, changes in place, drops in several orders). It runs with an
//! allocator that checks its blocks and counts what is not freed, under the address
//! sanitizer, and, for a part of the cases, under Miri.

use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

use super::c21;
use crate::engine::*;
use crate::gen;
use crate::peer::{request, Peer};

#[derive(Clone, Copy, PartialEq)]
enum How {
    Checked,
    Asan,
    Miri,
}
use How::*;

fn features() -> &'static str {
    if is_alt() {
        "std,memchr"
    } else {
        "std"
    }
}
fn target(dir: &Path, how: How) -> PathBuf {
    dir.join("target").join(match (how, is_alt()) {
        (Checked, false) => "safety",
        (Checked, true) => "safety-memchr",
        (Asan, false) => "safety-asan",
        (Asan, true) => "safety-asan-memchr",
        (Miri, false) => "safety-miri",
        (Miri, true) => "safety-miri-memchr",
    })
}
fn dir() -> PathBuf {
    verif_dir().join("harness/transcript")
}
const TRIPLE: &str = "x86_64-unknown-linux-gnu";

fn cargo(how: How) -> Command {
    let dir = dir();
    let mut cmd = Command::new("cargo");
    // Whatever the caller has set does not matter.
    for v in ["RUSTFLAGS", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"] {
        cmd.env_remove(v);
    }
    match how {
        Checked => cmd.args(["build", "--release"]),
        Asan => cmd.args(["+nightly", "build", "--release", "--target", TRIPLE]).env("RUSTFLAGS", "-Zsanitizer=address --cfg asan"),
        Miri => cmd.args(["+nightly", "miri", "run"]).env("MIRIFLAGS", "-Zmiri-disable-isolation"),
    };
    if how != Miri && !is_alt() {
        cmd.args(["--config", "profile.release.debug-assertions=true"]);
    }
    cmd.args(["-q", "--offline", "--locked", "--bin", "safety", "--features", features()]);
    cmd.arg("--manifest-path").arg(dir.join("Cargo.toml")).arg("--target-dir").arg(target(&dir, how));
    cmd
}
fn program(how: How) -> Command {
    let t = target(&dir(), how);
    match how {
        Checked => Command::new(t.join("release/safety")),
        Asan => {
            let mut c = Command::new(t.join(TRIPLE).join("release/safety"));
            // Leaks are counted by the checked allocator; the leak sanitizer needs to trace.
            c.env("ASAN_OPTIONS", "detect_leaks=0");
            c
        }
        Miri => cargo(Miri),
    }
}

/// Builds all variants, or says why not.
fn build() -> &'static Result<(), String> {
    static P: OnceLock<Result<(), String>> = OnceLock::new();
    P.get_or_init(|| {
        std::thread::scope(|s| {
            let hs = [Checked, Asan, Miri].map(|how| {
                s.spawn(move || {
                    // Running it on nothing is how Miri builds it.
                    let o = cargo(how).stdin(std::process::Stdio::null()).output().expect("cargo runs");
                    if o.status.success() {
                        return Ok(());
                    }
                    let log = String::from_utf8_lossy(&o.stderr).into_owned();
                    Err(log[log.find("error").unwrap_or(0)..].chars().take(1000).collect::<String>())
                })
            });
            hs.into_iter().try_for_each(|h| h.join().unwrap())
        })
    })
}

thread_local! {
    static PEERS: RefCell<[Option<Peer>; 3]> = const { RefCell::new([None, None, None]) };
}

fn ask(how: How, line: &str) -> R {
    PEERS.with(|p| {
        let slot = &mut p.borrow_mut()[how as usize];
        let x = slot.get_or_insert_with(|| Peer::start(program(how)));
        x.send(line);
        let answer = match x.answer() {
            Ok(a) => a,
            Err(e) => {
                *slot = None;
                let name = ["with the checking allocator", "under the address sanitizer", "under Miri"][how as usize];
                return fail("ends the program", format!("{name}: {e}"));
            }
        };
        let mut f = answer.splitn(3, '\t');
        match (f.next(), f.next(), f.next()) {
            (Some("ok"), Some(_), _) => Ok(()),
            (Some("bad"), Some(kind), Some(detail)) => fail(kind, detail),
            _ => panic!("answer {answer:?}"),
        }
    })
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let miri = src.chance(1, 100);
    let (kind, fields) = c21::case(src, cx);
    if let Err(e) = build() {
        // Not a matter of this property: the check cannot tell.
        eprintln!("check error: {e}");
        std::process::exit(2);
    }
    cx.describe(format_args!("{kind} {fields:?}{}", if miri { " (Miri)" } else { "" }));
    let line = request(kind, &fields);
    ask(Checked, &line)?;
    ask(Asan, &line)?;
    if miri && line.len() < 400 {
        ask(Miri, &line)?;
        cx.label(match kind {
            "text" => "text under Miri",
            _ => "other request under Miri",
        });
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(gen::all_over(vec![0, 0], 12, if thorough { 4 } else { 3 }))
}

pub static PROP: Prop = Prop {
    id: "C23",
    quick: 40_000,
    thorough: 400_000,
    rule: "Each case is a text, a resolution, a composition or an expansion, on which a program does everything the crate can do, and owns, \
           shares, boxes, changes in place, converts and drops the values in several orders: with an allocator that checks borders, sizes and double \
           frees, overwrites what is freed and counts what is not; under the address sanitizer; and, one case in 100, under Miri. \
           Enumerated: all strings of up to 3 (4) of 12 symbols. Non-trivial: the text is not empty, or there is a resolution, a \
           composition or a template with values.",
    run,
    enumerate,
    must_reach: &[
        ("reference with an authority", 400),
        ("text with non-ASCII characters", 400),
        ("text under Miri", 12),
        ("other request under Miri", 12),
    ],
    assumptions: &[
        "races between threads are not looked for: no value has interior mutability",
        "under Miri only requests of up to 200 bytes are run",
    ],
};
