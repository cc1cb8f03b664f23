//! Runs the fallible allocating operations under injected allocation failures.
//!
//! A request is a line of space-separated texts in hex. For each operation on them,
//! every allocation in turn is made to fail, alone and together with all later ones.
//! The answer is a line: `ok`, the number of operations, and the number of failures
//! that were injected; or `bad`, the kind and the detail. An operation that aborts on
//! the failure ends the program; the last line before that names it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::TryReserveError;
use std::fmt::Display;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::{try_append_to_string, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::PercentEncoded;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::simple_context::SimpleContext;
use iri_string::template::UriTemplateStr;
use iri_string::types::*;

thread_local! {
    /// Allocations to allow before the failure; -1: no failure.
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static ONCE: Cell<bool> = const { Cell::new(false) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}
struct Failing;
fn deny() -> bool {
    LEFT.with(|l| match l.get() {
        -1 => false,
        0 => {
            FAILED.with(|f| f.set(f.get() + 1));
            if ONCE.with(Cell::get) {
                l.set(-1);
            }
            true
        }
        n => {
            l.set(n - 1);
            false
        }
    })
}
// SAFETY: defers to the system allocator or reports failure.
unsafe impl GlobalAlloc for Failing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if deny() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if deny() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if deny() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Failing = Failing;

struct Run {
    ops: u64,
    injected: u64,
    bad: Option<(String, String)>,
}
impl Run {
    /// `op` is run on a fresh `start()`; `check` judges what it leaves.
    fn op<T, O>(
        &mut self,
        name: &str,
        start: impl Fn() -> T,
        op: impl Fn(&mut T) -> Result<O, TryReserveError>,
        check: impl Fn(&T, Option<&O>) -> Result<(), String>,
    ) {
        if self.bad.is_some() {
            return;
        }
        self.ops += 1;
        for once in [false, true] {
            for k in -1..10_000i64 {
                let mut v = start();
                // Read by the parent if this is the last line.
                eprintln!("{name}, allocation {k}");
                FAILED.with(|f| f.set(0));
                ONCE.with(|o| o.set(once));
                LEFT.with(|l| l.set(k));
                let r = catch_unwind(AssertUnwindSafe(|| op(&mut v)));
                LEFT.with(|l| l.set(-1));
                let failed = FAILED.with(Cell::get);
                self.injected += u64::from(failed > 0);
                let verdict = match r {
                    Err(_) => Err("panics".to_string()),
                    Ok(Ok(o)) => check(&v, Some(&o)),
                    Ok(Err(_)) if failed == 0 => Err("reports a failure that did not happen".to_string()),
                    Ok(Err(e)) => match e.to_string().is_empty() {
                        true => Err("the error has no message".into()),
                        false => check(&v, None),
                    },
                };
                if let Err(e) = verdict {
                    self.bad = Some((name.into(), format!("with allocation {k} failing (only it: {once}): {e}")));
                    return;
                }
                if k >= 0 && failed == 0 {
                    break;
                }
            }
        }
    }
    /// An operation that makes a new text.
    fn make<O: AsRef<str>>(&mut self, name: &str, op: impl Fn() -> Result<O, TryReserveError>, expected: &str) {
        self.op(name, || (), |_| op(), |_, o| match o {
            Some(o) if o.as_ref() != expected => Err(format!("gives {:?}, expected {expected:?}", o.as_ref())),
            _ => Ok(()),
        });
    }
    fn display(&mut self, name: &str, d: &dyn Display) {
        let expected = d.to_string();
        self.make(name, || d.try_to_string(), &expected);
        self.op(
            name,
            || "before".to_string(),
            |s| try_append_to_string(s, &d),
            |s, o| match s.strip_prefix("before") {
                Some(x) if o.is_some() && x == expected => Ok(()),
                Some(x) if o.is_none() && expected.starts_with(x) => Ok(()),
                _ => Err(format!("leaves {s:?}, expected {expected:?}")),
            },
        );
    }
}

fn on<S: Spec>(f: &[String], r: &mut Run) {
    let (s, base, host) = (&f[0], &f[1], &f[2]);
    macro_rules! in_place {
        ($ty:ident, $v:expr, $($m:ident $plain:ident),*) => {$(
            let v = $v;
            let mut e = v.to_owned();
            let replaced = e.$plain(host).map(str::to_string);
            for spare in [0, host.len() / 2, host.len()] {
                r.op(
                    concat!(stringify!($ty), "::", stringify!($m)),
                    || {
                        let mut raw = String::with_capacity(v.as_str().len() + spare);
                        raw.push_str(v.as_str());
                        $ty::<S>::try_from(raw).unwrap()
                    },
                    |x| x.$m(host).map(|o| o.map(|s| { let l = LEFT.with(|l| l.replace(-1)); let s = s.to_string(); LEFT.with(|x| x.set(l)); s })),
                    |x, o| match o {
                        Some(o) if *o != replaced || x.as_str() != e.as_str() => Err(format!("gives {o:?}, leaves {x:?}, expected {e:?}")),
                        None if x.as_str() != v.as_str() => Err(format!("fails and leaves {x:?} of {v:?}")),
                        _ => Ok(()),
                    },
                );
            }
        )*};
    }
    macro_rules! all {
        ($b:ident $o:ident) => {
            if let Ok(v) = $b::<S>::new(s) {
                let m = v.mask_password();
                r.make(concat!(stringify!($b), " without password"), || m.try_to_dedicated_string(), &m.to_string());
                r.display("mask_password", &m);
                r.display("replace_password", &m.replace_password(host));
                let u = MappedToUri::from(v);
                r.make(concat!(stringify!($b), " as URI"), || u.try_to_dedicated_string(), &u.to_string());
                let mut b = Builder::from(v);
                for _ in 0..2 {
                    if let Ok(x) = b.clone().build::<$b<S>>() {
                        r.make(concat!(stringify!($b), " built"), || x.try_to_dedicated_string(), &x.to_string());
                    }
                    b.normalize();
                }
                in_place!($o, v, try_replace_host replace_host, try_replace_host_reg_name replace_host_reg_name);
            }
        };
    }
    all!(RiReferenceStr RiReferenceString);
    all!(RiStr RiString);
    all!(RiAbsoluteStr RiAbsoluteString);
    all!(RiRelativeStr RiRelativeString);
    macro_rules! normal {
        ($b:ident) => {
            if let Ok(v) = $b::<S>::new(s) {
                for n in [v.normalize(), v.normalize_but_preserve_authorityless_relative_path()] {
                    r.make(concat!(stringify!($b), " normalized"), || n.try_to_dedicated_string(), &n.to_string());
                }
            }
        };
    }
    normal!(RiStr);
    normal!(RiAbsoluteStr);
    if let (Ok(v), Ok(b)) = (RiReferenceStr::<S>::new(s), RiAbsoluteStr::<S>::new(base)) {
        for n in [v.resolve_against(b), v.resolve_against(b).and_normalize()] {
            r.make("resolved", || n.try_to_dedicated_string(), &n.to_string());
        }
    }
    r.display("percent-encoded", &PercentEncoded::<_, S>::from_path_segment(s));
    if let Ok(t) = UriTemplateStr::new(&f[3]) {
        let mut ctx = SimpleContext::new();
        ctx.insert("a", s.as_str());
        ctx.insert("b", iri_string::template::simple_context::Value::List(vec![base.to_string(), host.to_string()]));
        if let Ok(e) = t.expand::<S, _>(&ctx) {
            r.display("expanded", &e);
        }
    }
}

fn to_uri(s: &str, r: &mut Run) {
    macro_rules! ty {
        ($($o:ident)*) => {$(
            if let Ok(v) = $o::try_from(s) {
                let mut e = v.clone();
                e.encode_to_uri_inline();
                for spare in [0, 5, 400] {
                    let fresh = || {
                        let mut raw = String::with_capacity(s.len() + spare);
                        raw.push_str(s);
                        $o::try_from(raw).unwrap()
                    };
                    r.op(
                        concat!(stringify!($o), "::try_encode_to_uri_inline"),
                        fresh,
                        |x| x.try_encode_to_uri_inline(),
                        |x, o| match o {
                            Some(()) if *x != e => Err(format!("leaves {x:?}, expected {e:?}")),
                            None if *x != v => Err(format!("fails and leaves {x:?} of {v:?}")),
                            _ => Ok(()),
                        },
                    );
                    r.op(
                        concat!(stringify!($o), "::try_encode_into_uri"),
                        || Some(fresh()),
                        |x| x.take().unwrap().try_encode_into_uri(),
                        |_, o| match o {
                            Some(o) if o.as_str() != e.as_str() => Err(format!("gives {o:?}, expected {e:?}")),
                            _ => Ok(()),
                        },
                    );
                }
            }
        )*};
    }
    ty!(IriReferenceString IriString IriAbsoluteString IriRelativeString IriQueryString IriFragmentString);
}

fn unhex(s: &str) -> String {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    String::from_utf8(b.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()).unwrap()
}

#[path = "../cputime.rs"]
mod cputime;

fn main() {
    cputime::guard();
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        cputime::beat();
        let f: Vec<String> = line.unwrap().split(' ').map(unhex).collect();
        let mut r = Run { ops: 0, injected: 0, bad: None };
        on::<IriSpec>(&f, &mut r);
        on::<UriSpec>(&f, &mut r);
        to_uri(&f[0], &mut r);
        let answer = match r.bad {
            None => format!("ok\t{}\t{}", r.ops, r.injected),
            Some((k, d)) => format!("bad\t{k}\t{d}"),
        };
        let mut o = std::io::stdout().lock();
        writeln!(o, "{answer}").unwrap();
        o.flush().unwrap();
    }
}
