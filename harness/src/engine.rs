//! Generation, execution, shrinking and reporting.
//!
//! Every random decision of a generator is one draw from a choice tape. A run
//! draws fresh values from a PRNG and records them; replay and shrinking feed a
//! recorded (or edited) tape back. A failing case is therefore fully described
//! by its tape, and shrinking the tape shrinks the input, whatever its type.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::cputime;

/// splitmix64.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Stable (FNV-1a) hash, used for seeds and for counting distinct cases.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// Source of choices.
pub struct Src {
    rng: Option<u64>,
    tape: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(mix(seed)),
            tape: Vec::new(),
            pos: 0,
        }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src {
            rng: None,
            tape,
            pos: 0,
        }
    }
    pub fn tape(&self) -> &[u64] {
        &self.tape
    }
    /// Returns a value in `0..n`. Zero is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(state) => {
                *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let v = ((u128::from(mix(*state)) * u128::from(n)) >> 64) as u64;
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                v % n
            }
        };
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den. False is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, items: &'a [&'a T]) -> &'a T {
        items[self.idx(items.len())]
    }
    pub fn pick_c<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.idx(items.len())]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    /// A length, biased to small values, at most `max`.
    pub fn small_len(&mut self, max: usize) -> usize {
        match self.weighted(&[60, 30, 10]) {
            0 => self.idx(max.min(3) + 1),
            1 => self.idx(max.min(8) + 1),
            _ => self.idx(max + 1),
        }
    }
}

/// A failed expectation.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Short stable label of the kind of failure.
    pub kind: String,
    pub detail: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(kind: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        kind: kind.to_string(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::engine::Fail { kind: $kind.to_string(), detail: format!($($arg)+) });
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $kind:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err($crate::engine::Fail {
                        kind: $kind.to_string(),
                        detail: format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b),
                    });
                }
            }
        }
    };
}

/// Observations of the running case.
#[derive(Default)]
pub struct Cx {
    /// Rendering of the case: what was generated.
    pub case: String,
    /// Whether the case is non-trivial by the rule of the property.
    pub nontrivial: bool,
    /// Class labels, counted in the evidence.
    pub labels: Vec<&'static str>,
    /// Listed findings met by this case: (finding id).
    pub known: Vec<&'static str>,
}
impl Cx {
    pub fn describe(&mut self, s: impl std::fmt::Display) {
        if !self.case.is_empty() {
            self.case.push_str(" | ");
        }
        let _ = write!(self.case, "{s}");
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn mark(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.nontrivial = true;
            self.label(l);
        }
    }
}

pub type RunFn = fn(&mut Src, &mut Cx) -> R;

/// A property and how to drive it.
pub struct Prop {
    pub id: &'static str,
    /// Random cases at the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// Rule of generation and of non-triviality.
    pub rule: &'static str,
    pub run: RunFn,
    /// Tapes of the enumerated part (small-scope exhaustive), if any.
    pub enumerate: fn(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>>,
    /// Class labels each run must reach, as a fraction of random cases (in
    /// 1/10000). A run that reaches less is reported as an error of the check,
    /// not as a violation.
    pub must_reach: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub fn no_enum(_: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    Box::new(std::iter::empty())
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs one case.
pub fn run_case(run: RunFn, src: &mut Src, cx: &mut Cx) -> R {
    match catch_unwind(AssertUnwindSafe(|| run(src, cx))) {
        Ok(r) => r,
        Err(_) => fail(
            "panic",
            format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())),
        ),
    }
}

struct Shard {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    samples: Vec<(u64, String)>,
    failure: Option<(Vec<u64>, Fail, String)>,
}

const MAX_DISTINCT: usize = 400_000;

fn absorb(sh: &mut Shard, cx: Cx, salt: u64) {
    sh.evals += 1;
    for l in &cx.labels {
        *sh.labels.entry(l).or_default() += 1;
    }
    for k in &cx.known {
        let e = sh
            .known
            .entry(k)
            .or_insert_with(|| (0, cx.case.clone()));
        e.0 += 1;
    }
    if cx.nontrivial {
        let h = hash_of(&cx.case);
        if sh.distinct.len() < MAX_DISTINCT {
            sh.distinct.insert(h);
        }
        // Bottom-k sampling by hash: an unbiased, deterministic sample.
        let k = mix(h ^ salt);
        if sh.samples.len() < 4 || k < sh.samples.last().unwrap().0 {
            if !sh.samples.iter().any(|(x, _)| *x == k) {
                sh.samples.push((k, cx.case));
                sh.samples.sort();
                sh.samples.truncate(4);
            }
        }
    }
}

static WATCH: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static WATCH_SEED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
/// Set for cases which are enumerated.
static WATCH_TAPE: [Mutex<Option<Vec<u64>>>; 64] = [const { Mutex::new(None) }; 64];
/// The choices and the observations of the case that the worker runs.
static WATCH_SRC: [AtomicPtr<Src>; 64] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 64];
static WATCH_CX: [AtomicPtr<Cx>; 64] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 64];

/// The text, or its start if it is long.
fn cut(s: &str, max: usize) -> String {
    match s.char_indices().nth(max) {
        Some((i, _)) => format!("{}... ({} bytes)", &s[..i], s.len()),
        None => s.to_string(),
    }
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

/// Most memory one case may hold (the largest holds some megabytes).
const CASE_LIMIT_BYTES: isize = 1 << 30;

/// In place of a worker.
const SHRINKING: usize = usize::MAX;

struct Counting;
thread_local! {
    /// What this thread has allocated since its case began.
    static HELD: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    /// How often it has allocated.
    static ALLOCATIONS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// What to do when the case exceeds its limit.
    static ON_EXCESS: std::cell::Cell<Option<(&'static Prop, usize)>> = const { std::cell::Cell::new(None) };
}
/// The value of the function, and how often this thread allocates in it.
pub fn allocations<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = ALLOCATIONS.get();
    let r = f();
    (r, ALLOCATIONS.get() - before)
}
fn allocated(n: isize) {
    let _ = ALLOCATIONS.try_with(|c| c.set(c.get() + 1));
    held(n);
}
fn held(n: isize) {
    let _ = HELD.try_with(|h| {
        h.set(h.get() + n);
        if h.get() > CASE_LIMIT_BYTES {
            h.set(0);
            if let Some((prop, w)) = ON_EXCESS.take() {
                if w == SHRINKING {
                    // Leave this attempt.
                    std::process::abort();
                }
                end_with(prop, w, "memory", format!("one case holds more than {CASE_LIMIT_BYTES} bytes"));
            }
        }
    });
}
// SAFETY: everything is done by the system allocator.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        allocated(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        held(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        allocated(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Ends the run for a case that cannot be left otherwise (and hence not be shrunk).
fn end_with(prop: &Prop, worker: usize, kind: &str, detail: String) {
    let f = Fail { kind: kind.into(), detail };
    let tape = WATCH_TAPE[worker].lock().unwrap().clone();
    let seed = tape.is_none().then(|| WATCH_SEED[worker].load(Ordering::Acquire));
    let path = write_replay(prop, tape.as_deref(), seed, "(see tape or case_seed)", &f);
    println!("{}: {}", f.kind, f.detail);
    println!("VIOLATION property={} replay={}", prop.id, path);
    std::process::exit(1);
}

/// Ends the run for a case that crashed, shrunk by running attempts in processes of their own.
fn end_with_crash(prop: &Prop, worker: usize, what: String) -> ! {
    // SAFETY: the worker has stopped for good in the case these belong to.
    let (src, cx) = unsafe {
        (&*WATCH_SRC[worker].load(Ordering::Acquire), &*WATCH_CX[worker].load(Ordering::Acquire))
    };
    println!("first failure: [crash] {what}\n  case: {}", cut(&cx.case, 3000));
    let f = Fail { kind: "crash".into(), detail: what };
    let first = (src.tape.clone(), f.clone(), cx.case.clone());
    let (tape, f, case) = shrink_by(first, |tape| {
        let mut child = std::process::Command::new(std::env::current_exe().ok()?)
            .args(["attempt", prop.id])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        use std::io::Write as _;
        let _ = child.stdin.take()?.write_all(json!(tape).to_string().as_bytes());
        let out = child.wait_with_output().ok()?;
        if out.status.code() != Some(CRASH_CODE) {
            return None;
        }
        Some((tape.to_vec(), f.clone(), String::from_utf8_lossy(&out.stdout).into_owned()))
    });
    println!("shrunk: [{}] {}\n  case: {}", f.kind, f.detail, cut(&case, 3000));
    let path = write_replay(prop, Some(&tape), None, &case, &f);
    println!("VIOLATION property={} replay={}", prop.id, path);
    std::process::exit(1);
}
const CRASH_CODE: i32 = 77;

/// Runs the case of the tape given on standard input, and tells whether it crashes.
pub fn attempt(prop: &'static Prop) -> i32 {
    install_panic_hook();
    install_crash_handler();
    let tape = std::io::read_to_string(std::io::stdin()).unwrap();
    let tape: Vec<u64> = serde_json::from_str(&tape).unwrap();
    let run = move || {
        let mut src = Src::replay(tape);
        let mut cx = Cx::default();
        WATCH_CX[0].store(&mut cx, Ordering::Release);
        WORKER.set(Some(0));
        HELD.set(0);
        ON_EXCESS.set(Some((prop, SHRINKING)));
        let _ = run_case(prop.run, &mut src, &mut cx);
        // This case does not crash.
        std::process::exit(0);
    };
    std::thread::Builder::new().stack_size(STACK_BYTES).spawn(run).unwrap();
    for _ in 0..1000 {
        std::thread::sleep(Duration::from_millis(2));
        if crash_of(0).is_some() {
            // SAFETY: the worker has stopped for good in the case these belong to.
            let cx = unsafe { &*WATCH_CX[0].load(Ordering::Acquire) };
            print!("{}", cx.case);
            let _ = std::io::Write::flush(&mut std::io::stdout());
            return CRASH_CODE;
        }
    }
    1
}

pub struct Outcome {
    pub exit: i32,
}

/// Name of the build configuration that is not the main one.
pub const ALT: &str = "memchr";
pub fn is_alt() -> bool {
    cfg!(feature = "memchr")
}
fn alt_summary(id: &str) -> std::path::PathBuf {
    verif_dir().join("evidence").join(format!(".{id}.{ALT}"))
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

fn write_replay(prop: &Prop, tape: Option<&[u64]>, seed: Option<u64>, case: &str, f: &Fail) -> String {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop.id));
    let v = json!({
        "property": prop.id,
        "tape": tape,
        "case_seed": seed.map(|s| s.to_string()),
        "case": cut(case, 20_000),
        "configuration": if is_alt() { ALT } else { "main" },
        "dictionary": crate::dict::record(),
        "kind": f.kind,
        "detail": cut(&f.detail, 20_000),
        "how": "cd /verif && ./check.sh replay <this file>",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path.display().to_string()
}

pub fn check(prop: &'static Prop, seed: u64, thorough: bool) -> Outcome {
    install_panic_hook();
    install_crash_handler();
    let t0 = Instant::now();
    let mut total = if thorough { prop.thorough } else { prop.quick };
    if is_alt() {
        total /= 2;
    }
    const SHARDS: u64 = 32;
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let next = AtomicUsize::new(0);
    let results: Mutex<BTreeMap<u64, Shard>> = Mutex::new(BTreeMap::new());
    let base = hash_of(&(prop.id, seed, is_alt()));
    let done = std::sync::atomic::AtomicBool::new(false);
    // Enumerated tapes are split among the shards by index.
    let enum_total = AtomicU64::new(0);
    let tasks: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; 64]);

    std::thread::scope(|scope| {
        let done = &done;
        let tasks = &tasks;
        let mut seen = [(0, 0); 64];
        let watchdog = scope.spawn(move || loop {
            if done.load(Ordering::Acquire) {
                return;
            }
            // The processor time of the worker counts, not the time that passes.
            let now = now_ms(t0);
            for w in 0..64 {
                if let Some(what) = crash_of(w) {
                    end_with_crash(prop, w, what);
                }
                let start = WATCH[w].load(Ordering::Acquire);
                if start == 0 || now < start + 5_000 {
                    continue;
                }
                let tasks = tasks.lock().unwrap();
                let Some(used) = tasks.get(w).and_then(|t: &Option<String>| cputime::seconds(t.as_ref()?)) else { continue };
                if seen[w].0 != start {
                    seen[w] = (start, used);
                } else if used > seen[w].1 + cputime::LIMIT_S {
                    let detail = format!("one case ran for more than {} s", cputime::LIMIT_S);
                    end_with(prop, w, "hang", detail);
                }
            }
            std::thread::sleep(Duration::from_millis(100));
        });
        let mut hs = Vec::new();
        for w in 0..workers {
            let (next, results, enum_total) = (&next, &results, &enum_total);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK_BYTES)
                    .spawn_scoped(scope, move || loop {
                        tasks.lock().unwrap()[w] = Some(cputime::own_file());
                        WORKER.set(Some(w));
                        let shard_i = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if shard_i >= SHARDS {
                            return;
                        }
                        let mut sh = Shard {
                            evals: 0,
                            distinct: HashSet::new(),
                            labels: BTreeMap::new(),
                            known: BTreeMap::new(),
                            samples: Vec::new(),
                            failure: None,
                        };
                        let step = |src: &mut Src, wseed: u64, sh: &mut Shard| {
                            WATCH_SEED[w].store(wseed, Ordering::Release);
                            WATCH[w].store(now_ms(t0), Ordering::Release);
                            let mut cx = Cx::default();
                            WATCH_SRC[w].store(src, Ordering::Release);
                            WATCH_CX[w].store(&mut cx, Ordering::Release);
                            HELD.set(0);
                            ON_EXCESS.set(Some((prop, w)));
                            let r = run_case(prop.run, src, &mut cx);
                            ON_EXCESS.set(None);
                            WATCH[w].store(0, Ordering::Release);
                            if let Err(f) = r {
                                sh.failure = Some((src.tape().to_vec(), f, cx.case.clone()));
                                return false;
                            }
                            absorb(sh, cx, base);
                            true
                        };
                        let mut ok = true;
                        let mut n = 0u64;
                        for tape in (prop.enumerate)(thorough).skip(shard_i as usize).step_by(SHARDS as usize) {
                            n += 1;
                            *WATCH_TAPE[w].lock().unwrap() = Some(tape.clone());
                            let mut src = Src::replay(tape);
                            if !step(&mut src, 0, &mut sh) {
                                ok = false;
                                break;
                            }
                        }
                        *WATCH_TAPE[w].lock().unwrap() = None;
                        enum_total.fetch_add(n, Ordering::SeqCst);
                        let count = total / SHARDS + u64::from(shard_i < total % SHARDS);
                        for i in 0..count {
                            if !ok {
                                break;
                            }
                            let s = mix(base ^ mix(shard_i << 40 | i));
                            let mut src = Src::random(s);
                            ok = step(&mut src, s, &mut sh);
                        }
                        results.lock().unwrap().insert(shard_i, sh);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::Release);
        watchdog.join().unwrap();
    });

    let results = results.into_inner().unwrap();
    let mut evals = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = Vec::new();
    let mut failure = None;
    for (_, sh) in results {
        evals += sh.evals + u64::from(sh.failure.is_some());
        distinct.extend(sh.distinct);
        for (l, n) in sh.labels {
            *labels.entry(l).or_default() += n;
        }
        for (k, (n, s)) in sh.known {
            let e = known.entry(k).or_insert((0, s));
            e.0 += n;
        }
        samples.extend(sh.samples);
        if failure.is_none() {
            failure = sh.failure;
        }
    }
    samples.sort();
    samples.dedup();
    samples.truncate(12);

    let listed = load_known(prop.id);
    let mut exit = 0;
    let mut unlisted_known = None;
    for (k, (n, case)) in &known {
        if listed.iter().any(|(id, _)| id == k) {
            let what = &listed.iter().find(|(id, _)| id == k).unwrap().1;
            println!("KNOWN-FINDING: property={} {} [{}; {} cases, e.g. {}]", prop.id, what, k, n, case);
        } else {
            unlisted_known = Some((k.to_string(), case.clone()));
        }
    }
    let mut violations = 0;
    if let Some((tape, f, case)) = failure {
        violations = 1;
        exit = 1;
        println!("first failure: [{}] {}\n  case: {}", f.kind, cut(&f.detail, 3000), cut(&case, 3000));
        let (tape, f, case) = shrink(prop, tape, f, case);
        println!("shrunk: [{}] {}\n  case: {}", f.kind, cut(&f.detail, 3000), cut(&case, 3000));
        let path = write_replay(prop, Some(&tape), None, &case, &f);
        println!("VIOLATION property={} replay={}", prop.id, path);
    } else if let Some((k, case)) = unlisted_known {
        violations = 1;
        exit = 1;
        let f = Fail {
            kind: k.clone(),
            detail: "a finding that the known-findings file does not list".into(),
        };
        let path = write_replay(prop, None, None, &case, &f);
        println!("unlisted finding {k}: {case}");
        println!("VIOLATION property={} replay={}", prop.id, path);
    }

    if exit == 0 {
        for (l, per10k) in prop.must_reach {
            let n = labels.get(l).copied().unwrap_or(0);
            if n * 10_000 < total * per10k {
                eprintln!("check error: class {l:?} reached only {n} times in {total} cases");
                exit = 3;
            }
        }
    }

    let mut ev = json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples.iter().map(|(_, s)| cut(s, 600)).collect::<Vec<_>>(),
            "enumerated": enum_total.load(Ordering::SeqCst),
            "classes": labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "known_findings_met": known.iter().map(|(k, (n, _))| (k.to_string(), json!(n))).collect::<serde_json::Map<_, _>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let alt = alt_summary(prop.id);
    if is_alt() {
        // The main configuration, which runs next, reports these figures too.
        let mut c = ev["coverage"].clone();
        c.as_object_mut().unwrap().remove("rule");
        c["wall_s"] = ev["wall_s"].clone();
        let _ = std::fs::write(&alt, c.to_string());
        if exit != 0 {
            write_evidence(prop.id, &ev);
        }
    } else {
        if let Some(c) = std::fs::read_to_string(&alt).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            ev["coverage"]["same_with_feature_memchr"] = c;
        }
        let _ = std::fs::remove_file(&alt);
        write_evidence(prop.id, &ev);
    }
    println!(
        "{}{}: {} cases ({} enumerated), {} distinct non-trivial, {:.1} s, exit {}",
        prop.id,
        if is_alt() { " with memchr" } else { "" },
        evals,
        enum_total.load(Ordering::SeqCst),
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        exit
    );
    Outcome { exit }
}

pub fn write_evidence(id: &str, ev: &Value) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(ev).unwrap() + "\n",
    )
    .expect("evidence must be writable");
}

/// `(finding id, what)` of the open findings listed for the property.
fn load_known(prop: &str) -> Vec<(String, String)> {
    let path = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(path) else {
        return Vec::new();
    };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json must be valid");
    v["open"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| {
                    (
                        e["id"].as_str().unwrap().to_string(),
                        e["what"].as_str().unwrap().to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// The stack of the threads that run cases, as large as that of other programs.
const STACK_BYTES: usize = 2 << 20;

/// The signal that ended a case, by worker.
static CRASHED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local! {
    static WORKER: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// Makes threads that crash while they run a case stop there, and say so in `CRASHED`.
fn install_crash_handler() {
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(signal: i32, new: *const Action, old: *mut Action) -> i32;
        fn sleep(seconds: u32) -> u32;
    }
    extern "C" fn on_crash(signal: i32) {
        let Ok(Some(w)) = WORKER.try_with(std::cell::Cell::get) else {
            let default = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
            // SAFETY: the action is the default one.
            unsafe { sigaction(signal, &default, std::ptr::null_mut()) };
            return;
        };
        CRASHED[w].store(signal as u64, Ordering::SeqCst);
        loop {
            // SAFETY: nothing to require.
            unsafe { sleep(1000) };
        }
    }
    const ON_STACK: i32 = 0x0800_0000;
    // Illegal instruction, abortion, bus error, division, segmentation violation.
    for signal in [4, 6, 7, 8, 11] {
        let a = Action { handler: on_crash as extern "C" fn(i32) as usize, mask: [0; 16], flags: ON_STACK, restorer: 0 };
        // SAFETY: the layout is that of the C library on this platform, and the handler
        // does nothing but what is safe in handlers.
        let r = unsafe { sigaction(signal, &a, std::ptr::null_mut()) };
        assert_eq!(r, 0);
    }
}
fn crash_of(w: usize) -> Option<String> {
    match CRASHED[w].load(Ordering::SeqCst) {
        0 => None,
        11 => Some("stack overflow or invalid access (signal 11)".into()),
        n => Some(format!("signal {n}")),
    }
}

type Best = (Vec<u64>, Fail, String);

/// Shrinks the case in a thread of its own, which is left alone if an attempt does not come back.
fn shrink(prop: &'static Prop, tape: Vec<u64>, f: Fail, case: String) -> Best {
    const W: usize = 63;
    let best = std::sync::Arc::new(Mutex::new((tape, f, case)));
    let shared = best.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(STACK_BYTES)
        .spawn(move || {
            WORKER.set(Some(W));
            shrink_here(prop, &shared);
            WORKER.set(None);
            let _ = tx.send(());
        })
        .unwrap();
    for _ in 0..400 {
        let end = rx.recv_timeout(Duration::from_millis(100));
        if end != Err(std::sync::mpsc::RecvTimeoutError::Timeout) || crash_of(W).is_some() {
            break;
        }
    }
    let best = best.lock().unwrap().clone();
    best
}

/// Shrinks the tape while the case still fails.
fn shrink_here(prop: &'static Prop, shared: &Mutex<Best>) {
    let first = shared.lock().unwrap().clone();
    shrink_by(first, |tape| {
        let mut src = Src::replay(tape.to_vec());
        let mut cx = Cx::default();
        HELD.set(0);
        ON_EXCESS.set(Some((prop, SHRINKING)));
        let r = run_case(prop.run, &mut src, &mut cx);
        ON_EXCESS.set(None);
        let f = r.err()?;
        let used = src.pos.min(tape.len());
        let best = (tape[..used].to_vec(), f, cx.case);
        *shared.lock().unwrap() = best.clone();
        Some(best)
    });
}

/// Shrinks a tape as long as `fails` tells that and how its case fails.
fn shrink_by(mut best: Best, fails: impl Fn(&[u64]) -> Option<Best>) -> Best {
    let t0 = Instant::now();
    let mut budget = 20_000usize;
    let mut attempt = |cand: &[u64], best: &mut Best| -> bool {
        if budget == 0 || t0.elapsed() > Duration::from_secs(20) {
            return false;
        }
        budget -= 1;
        match fails(cand) {
            Some(b) => {
                *best = b;
                true
            }
            None => false,
        }
    };
    loop {
        let mut improved = false;
        // Delete blocks.
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = best.0.len().saturating_sub(size);
            loop {
                if i + size <= best.0.len() {
                    let mut c = best.0.clone();
                    c.drain(i..i + size);
                    if attempt(&c, &mut best) {
                        improved = true;
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.0.len() {
            let v = best.0[i];
            if v != 0 {
                let mut c = best.0.clone();
                c[i] = 0;
                if attempt(&c, &mut best) {
                    improved = true;
                } else {
                    // Binary search on the value.
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi && i < best.0.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.0.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best) {
                            hi = mid;
                            improved = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return best;
        }
    }
}

pub fn replay(prop: &'static Prop, v: &Value) -> i32 {
    if v["dictionary"].is_object() {
        crate::dict::restore(&v["dictionary"]);
    }
    install_panic_hook();
    install_crash_handler();
    std::thread::scope(|scope| {
        let run = move || {
            WORKER.set(Some(0));
            replay_here(prop, v)
        };
        let h = std::thread::Builder::new().stack_size(STACK_BYTES).spawn_scoped(scope, run).unwrap();
        while !h.is_finished() {
            if let Some(what) = crash_of(0) {
                println!("[crash] {what}\nVIOLATION property={}", prop.id);
                std::process::exit(1);
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        h.join().unwrap()
    })
}
fn replay_here(prop: &'static Prop, v: &Value) -> i32 {
    let mut src = if let Some(tape) = v["tape"].as_array() {
        Src::replay(tape.iter().map(|x| x.as_u64().unwrap()).collect())
    } else if let Some(s) = v["case_seed"].as_str() {
        Src::random(s.parse().unwrap())
    } else {
        println!("the replay file names no tape; case: {}", v["case"]);
        return 3;
    };
    let mut cx = Cx::default();
    match run_case(prop.run, &mut src, &mut cx) {
        Ok(()) => {
            println!("case: {}\nholds", cx.case);
            0
        }
        Err(f) => {
            println!("case: {}\n[{}] {}", cx.case, f.kind, f.detail);
            println!("VIOLATION property={}", prop.id);
            1
        }
    }
}
