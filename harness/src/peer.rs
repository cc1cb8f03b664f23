//! Programs that answer one line to each line.

use std::io::{BufRead, BufReader, Read, Seek, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    /// What it says on standard error.
    log: std::fs::File,
}
impl Peer {
    pub fn start(mut cmd: Command) -> Peer {
        static N: AtomicU64 = AtomicU64::new(0);
        let path = std::env::temp_dir().join(format!("peer.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let log = std::fs::OpenOptions::new().create(true).read(true).append(true).open(&path).unwrap();
        std::fs::remove_file(&path).unwrap();
        let err = log.try_clone().unwrap();
        let mut child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err).spawn().expect("program starts");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Peer { child, to, from, log }
    }
    pub fn send(&mut self, request: &str) {
        let _ = self.log.set_len(0);
        let _ = self.to.write_all(request.as_bytes());
        let _ = self.to.flush();
    }
    /// The answer without the end of the line, or how the program ended.
    pub fn answer(&mut self) -> Result<String, String> {
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 && line.ends_with('\n') => {
                line.pop();
                Ok(line)
            }
            _ => Err(self.end()),
        }
    }
    fn end(&mut self) -> String {
        let status = self.child.wait();
        let status = status.map_or_else(|e| e.to_string(), |s| s.to_string());
        Self::said(&mut self.log, &status)
    }
    fn said(log: &mut std::fs::File, status: &str) -> String {
        let mut text = String::new();
        let _ = log.rewind().and_then(|()| log.read_to_string(&mut text));
        let noise = |l: &&str| l.contains("backtrace") || l.contains("panic") || l.trim().is_empty();
        let lines: Vec<&str> = text.lines().filter(|l| !noise(l)).collect();
        // Sanitizers begin with the cause.
        let from = lines.iter().position(|l| l.contains("error:") || l.contains("ERROR:")).unwrap_or(lines.len().saturating_sub(3));
        let said = lines[from..].iter().take(5).map(|l| l.trim()).collect::<Vec<_>>().join("; ");
        format!("{status}: {said}")
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// A request: its kind, and texts in hex.
pub fn request(kind: &str, fields: &[String]) -> String {
    let mut r = kind.to_string();
    for f in fields {
        r.push(' ');
        r.extend(f.bytes().map(|b| format!("{b:02x}")));
    }
    r.push('\n');
    r
}
