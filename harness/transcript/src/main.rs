//! Answers requests on standard input with a transcript of what the crate says,
//! one line each. Built in many configurations, which must answer the same.
//!
//! A request is a line of space-separated fields: the kind, then texts in hex.
//! An answer is the transcript of what every configuration has, a tab, and the
//! transcript of what needs the feature `alloc`.

use std::io::{BufRead, Write as _};

#[path = "../../src/cputime.rs"]
mod cputime;
mod say;

fn main() {
    cputime::guard();
    // Leave the answer to say it.
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        cputime::beat();
        let line = line.unwrap();
        let mut fields = line.split(' ');
        let kind = fields.next().unwrap();
        let f: Vec<String> = fields.map(say::unhex).collect();
        let r = std::panic::catch_unwind(|| {
            let mut out = say::Out::default();
            say::run(kind, &f, &mut out);
            out
        });
        let answer = match r {
            Ok(o) => format!("{}\t{}", o.core, o.alloc),
            Err(_) => "panic\tpanic".to_string(),
        };
        let mut o = stdout.lock();
        writeln!(o, "{answer}").unwrap();
        o.flush().unwrap();
    }
}
