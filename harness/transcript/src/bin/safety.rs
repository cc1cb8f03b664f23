//! Uses the crate in every way a request asks for, where misuse of memory shows: with
//! an allocator that checks its blocks, under the address sanitizer, or under Miri.
//!
//! Requests are those of the program `transcript`. The answer to each is `ok` and a hash of
//! all texts seen, or `bad`, a kind and a detail; what breaks the rules ends the program.

use std::borrow::Cow;
use std::io::{BufRead, Write as _};
use std::rc::Rc;
use std::sync::Arc;

use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;

#[cfg(not(miri))]
#[path = "../../../src/cputime.rs"]
mod cputime;
#[path = "../say.rs"]
mod say;

/// Blocks with a header and a border, both checked; always moved; overwritten when freed.
#[cfg(not(any(miri, asan)))]
mod checked {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, Ordering};

    pub static HELD: AtomicIsize = AtomicIsize::new(0);
    const LIVE: u64 = 0x5afe_b10c_5afe_b10c;
    const DEAD: u64 = 0xdead_b10c_dead_b10c;
    const BORDER: usize = 32;
    pub struct Checked;

    fn offset(l: Layout) -> usize {
        l.align().max(32)
    }
    fn whole(l: Layout) -> Layout {
        Layout::from_size_align(offset(l) + l.size() + BORDER, l.align().max(16)).unwrap()
    }
    fn stop(what: &'static [u8]) -> ! {
        use std::io::Write;
        let _ = std::io::stderr().write_all(what);
        std::process::abort()
    }

    // SAFETY: blocks of the system allocator, with space around.
    unsafe impl GlobalAlloc for Checked {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(whole(l));
            if p.is_null() {
                return p;
            }
            let u = p.add(offset(l));
            let h = u.cast::<u64>();
            h.sub(1).write(LIVE);
            h.sub(2).write(l.size() as u64);
            h.sub(3).write(l.align() as u64);
            u.write_bytes(0xa5, l.size());
            u.add(l.size()).write_bytes(0xbd, BORDER);
            HELD.fetch_add(l.size() as isize, Ordering::Relaxed);
            u
        }
        unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
            let h = u.cast::<u64>();
            match h.sub(1).read() {
                LIVE => {}
                DEAD => stop(b"a block is freed twice\n"),
                _ => stop(b"what is freed is not a block\n"),
            }
            if h.sub(2).read() != l.size() as u64 || h.sub(3).read() != l.align() as u64 {
                stop(b"a block is freed with another size or alignment\n");
            }
            if (0..BORDER).any(|i| u.add(l.size() + i).read() != 0xbd) {
                stop(b"something was written beyond the end of a block\n");
            }
            u.write_bytes(0xdd, l.size());
            h.sub(1).write(DEAD);
            HELD.fetch_sub(l.size() as isize, Ordering::Relaxed);
            System.dealloc(u.sub(offset(l)), whole(l));
        }
    }
    #[global_allocator]
    static ALLOCATOR: Checked = Checked;
}

fn held() -> isize {
    #[cfg(not(any(miri, asan)))]
    {
        checked::HELD.load(std::sync::atomic::Ordering::SeqCst)
    }
    #[cfg(any(miri, asan))]
    {
        0
    }
}

struct Seen(u64, Option<&'static str>);
impl Seen {
    /// Reads all of a text which is to be UTF-8.
    fn see(&mut self, s: &str) {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.1 = Some("a text is not UTF-8");
            return;
        }
        for &b in s.as_bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = (self.0 ^ 0xff).wrapping_mul(0x100_0000_01b3);
    }
    /// Reads what is to be a certain text.
    fn same(&mut self, s: &str, exp: &str) {
        self.see(s);
        if s != exp {
            self.1 = Some("a conversion changed the text");
        }
    }
}

fn spare(s: &str, n: usize) -> String {
    let mut r = String::with_capacity(s.len() + n);
    r.push_str(s);
    r
}

/// All ways of owning a text.
macro_rules! own {
    ($b:ty, $o:ty, $s:expr, $n:expr, $seen:expr) => {{
        let (s, n, seen): (&str, usize, &mut Seen) = ($s, $n, $seen);
        if let Ok(v) = <$b>::new(s) {
            let boxed: Box<$b> = v.into();
            let rc: Rc<$b> = v.into();
            let rc2 = Rc::clone(&rc);
            let arc: Arc<$b> = v.into();
            let arc2 = Arc::clone(&arc);
            seen.same(boxed.as_str(), s);
            if n % 2 == 0 {
                drop(rc);
                seen.same(rc2.as_str(), s);
            } else {
                drop(rc2);
                seen.same(rc.as_str(), s);
            }
            drop(boxed);
            if cfg!(miri) || n != 3 {
                drop(arc2);
            } else {
                // Joining also waits for what the thread frees at its end.
                std::thread::scope(|t| t.spawn(move || drop(arc2)).join().unwrap());
            }
            seen.same(arc.as_str(), s);
            let cow: Cow<'_, $b> = v.into();
            let o: $o = cow.clone().into_owned();
            drop(cow);
            seen.same(o.as_str(), s);
            let boxed: Box<$b> = <$o>::try_from(spare(s, n)).unwrap().into();
            seen.same(boxed.as_str(), s);
            let o2 = <$o>::from(&*boxed);
            drop(boxed);
            let cow: Cow<'_, $b> = o2.into();
            seen.same(cow.as_str(), s);
            let text: String = cow.into_owned().into();
            seen.same(&text, s);
            let o3 = o.clone();
            drop(o);
            seen.same(<$o as AsRef<$b>>::as_ref(&o3).as_str(), s);
        } else {
            match <$o>::try_from(spare(s, n)) {
                Ok(_) => seen.1 = Some("valid owned, not borrowed"),
                Err(e) => seen.see(&e.to_string()),
            }
        }
        match <&$b>::try_from(s.as_bytes()) {
            Ok(v) => seen.same(v.as_str(), s),
            Err(e) => seen.see(&e.to_string()),
        }
    }};
}
/// Changes of an owned text in place, with and without room.
macro_rules! change {
    ($o:ident, $s:expr, $alt:expr, $n:expr, $seen:expr; $($w:ident => $e:expr),*) => {{
        $(if let Ok(mut $w) = $o::<S>::try_from(spare($s, $n)) {
            $e;
            $seen.see($w.as_str());
            $w.shrink_to_fit();
            $seen.see($w.as_str());
        })*
    }};
}
macro_rules! host {
    ($seen:expr, $w:expr, $m:ident, $alt:expr) => {
        if let Some(old) = $w.$m($alt) {
            $seen.see(old);
        }
    };
}

fn own_all<S: Spec>(s: &str, alt: &str, n: usize, seen: &mut Seen) {
    own!(RiReferenceStr<S>, RiReferenceString<S>, s, n, seen);
    own!(RiStr<S>, RiString<S>, s, n, seen);
    own!(RiAbsoluteStr<S>, RiAbsoluteString<S>, s, n, seen);
    own!(RiRelativeStr<S>, RiRelativeString<S>, s, n, seen);
    own!(RiQueryStr<S>, RiQueryString<S>, s, n, seen);
    own!(RiFragmentStr<S>, RiFragmentString<S>, s, n, seen);
    let fr = RiFragmentStr::<S>::new(alt).ok();
    macro_rules! changes {
        ($($o:ident),*) => {$(change!($o, s, alt, n, seen;
            w => w.remove_password_inline(),
            w => w.remove_nonempty_password_inline(),
            w => host!(seen, w, replace_host, alt),
            w => host!(seen, w, replace_host_reg_name, alt),
            w => { host!(seen, w, replace_host, "a"); host!(seen, w, replace_host, "[::1]"); host!(seen, w, replace_host, "") }
        );)*};
    }
    changes!(RiReferenceString, RiString, RiAbsoluteString, RiRelativeString);
    macro_rules! fragments {
        ($($o:ident),*) => {$(change!($o, s, alt, n, seen; w => w.set_fragment(fr), w => w.set_fragment(None));)*};
    }
    fragments!(RiReferenceString, RiString, RiRelativeString);
    if let Ok(w) = RiString::<S>::try_from(spare(s, n)) {
        let (a, f) = w.into_absolute_and_fragment();
        seen.see(a.as_str());
        if let Some(f) = f {
            seen.see(f.as_str());
        }
    }
}

fn inline(s: &str, n: usize, seen: &mut Seen) {
    macro_rules! uri {
        ($($o:ident),*) => {$(if let Ok(mut w) = $o::try_from(spare(s, n)) {
            w.encode_to_uri_inline();
            seen.see(w.as_str());
            seen.see(w.try_into_uri().unwrap().as_str());
        })*};
    }
    uri!(IriReferenceString, IriString, IriAbsoluteString, IriRelativeString, IriQueryString, IriFragmentString);
}

fn templates(s: &str, n: usize, seen: &mut Seen) {
    own!(UriTemplateStr, UriTemplateString, s, n, seen);
    if let Ok(mut w) = UriTemplateString::try_from(spare(s, n)) {
        let other = w.clone();
        w.append(&other);
        w.append(UriTemplateStr::new("{x}").unwrap());
        seen.see(w.as_str());
        w.shrink_to_fit();
        seen.see(w.as_str());
    }
}

fn decode(s: &str, seen: &mut Seen) {
    let d = decode_whatwg_bytes(s.as_bytes());
    seen.see(&String::from_utf8_lossy(d.to_bytes().unwrap_or_default()));
    match d.into_string() {
        Ok(t) => seen.see(&t),
        Err(e) => seen.see(&e.to_string()),
    }
}

/// Results that become values of their own type without being validated.
fn dedicated<S: Spec>(s: &str, seen: &mut Seen) {
    if let Ok(v) = RiReferenceStr::<S>::new(s) {
        seen.see(v.mask_password().to_dedicated_string().as_str());
        seen.see(MappedToUri::from(v).to_dedicated_string().as_str());
        let base = RiAbsoluteStr::<S>::new("b://u@h:1/p/q/r?x").unwrap();
        seen.see(v.resolve_against(base).to_dedicated_string().as_str());
        for part in [v.authority_str(), Some(v.path_str()), v.query_str(), v.fragment_str()] {
            seen.see(part.unwrap_or(""));
        }
    }
    if let Ok(v) = RiStr::<S>::new(s) {
        seen.see(v.normalize().to_dedicated_string().as_str());
        seen.see(v.to_absolute().as_str());
    }
}

fn answer(kind: &str, f: &[String]) -> Seen {
    let mut seen = Seen(0xcbf2_9ce4_8422_2325, None);
    let n = f.iter().map(String::len).sum::<usize>() % 5;
    let mut out = say::Out::default();
    match kind {
        // Miri is a thousand times slower, and what this does (in safe code) is a lot.
        "text" if cfg!(miri) => {
            dedicated::<IriSpec>(&f[0], &mut seen);
            dedicated::<UriSpec>(&f[0], &mut seen);
        }
        _ if cfg!(miri) && n % 2 == 0 => say::run_as::<UriSpec>(kind, f, &mut out),
        _ if cfg!(miri) => say::run_as::<IriSpec>(kind, f, &mut out),
        _ => say::run(kind, f, &mut out),
    }
    seen.see(&out.core);
    seen.see(&out.alloc);
    drop(out);
    match kind {
        "text" if cfg!(miri) && n % 2 == 0 => own_all::<UriSpec>(&f[0], &f[1], n, &mut seen),
        "text" => {
            own_all::<IriSpec>(&f[0], &f[1], n, &mut seen);
            if cfg!(not(miri)) {
                own_all::<UriSpec>(&f[0], &f[1], n, &mut seen);
            }
            inline(&f[0], n, &mut seen);
            decode(&f[0], &mut seen);
        }
        "template" => templates(&f[0], n, &mut seen),
        _ => {}
    }
    seen
}

fn main() {
    #[cfg(not(miri))]
    cputime::guard();
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        #[cfg(not(miri))]
        cputime::beat();
        let line = line.unwrap();
        let mut fields = line.split(' ');
        let kind = fields.next().unwrap();
        let f: Vec<String> = fields.map(say::unhex).collect();
        // What is made once and for all (if anything) is made the first time.
        let mut grown = 0;
        let mut r = std::panic::catch_unwind(|| answer(kind, &f));
        for _ in 0..3 {
            if cfg!(any(miri, asan)) {
                break;
            }
            let before = held();
            let again = std::panic::catch_unwind(|| answer(kind, &f));
            if let (Ok(a), Ok(b)) = (&mut r, &again) {
                if a.0 != b.0 && a.1.is_none() {
                    a.1 = Some("the same request gives another result");
                }
            }
            drop(again);
            grown = held() - before;
            if grown == 0 {
                break;
            }
        }
        let mut o = std::io::stdout().lock();
        match r {
            Err(_) => writeln!(o, "bad\tpanic\t"),
            Ok(Seen(_, Some(what))) => writeln!(o, "bad\ttext\t{what}"),
            Ok(_) if grown != 0 => writeln!(o, "bad\tleak\t{grown} bytes are not freed"),
            Ok(Seen(h, None)) => writeln!(o, "ok\t{h:x}"),
        }
        .unwrap();
        o.flush().unwrap();
    }
}
