//! Processor time of threads, to tell a case that does not terminate from a busy machine.
#![allow(dead_code)]

use std::io::Read;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// Most processor time one case may use (the slowest takes milliseconds), in seconds.
pub const LIMIT_S: u64 = 60;

/// The file that tells how much processor time the calling thread has used.
pub fn own_file() -> String {
    format!("/proc/{}/stat", std::fs::read_link("/proc/thread-self").unwrap().display())
}

/// Seconds used so far. Does not allocate.
pub fn seconds(file: &str) -> Option<u64> {
    let mut buf = [0u8; 1024];
    let n = std::fs::File::open(file).ok()?.read(&mut buf).ok()?;
    let s = std::str::from_utf8(&buf[..n]).ok()?;
    // Fields 14 and 15, in ticks of 10 ms, counted after the parenthesized name.
    let mut f = s[s.rfind(')')? + 1..].split_ascii_whitespace().skip(11);
    let (u, k): (u64, u64) = (f.next()?.parse().ok()?, f.next()?.parse().ok()?);
    Some((u + k) / 100)
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Tells the guard that the next request begins.
pub fn beat() {
    BEAT.fetch_add(1, Ordering::SeqCst);
}

/// Ends the process when the calling thread works on one request for too long.
/// The thread that does so allocates nothing once this returns.
pub fn guard() {
    static READY: AtomicBool = AtomicBool::new(false);
    let file = own_file();
    std::thread::spawn(move || {
        let (mut last, mut from) = (0, 0);
        READY.store(true, Ordering::SeqCst);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let (now, used) = (BEAT.load(Ordering::SeqCst), seconds(&file).unwrap_or(0));
            if now != last {
                (last, from) = (now, used);
            } else if used > from + LIMIT_S {
                eprintln!("does not terminate");
                std::process::abort();
            }
        }
    });
    while !READY.load(Ordering::SeqCst) {
        std::thread::yield_now();
    }
}
