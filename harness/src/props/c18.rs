//! C18: equality, order and hash are those of the text.

use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::rfc::Kind;
use crate::tplmodel as tm;

/// What the comparison of the texts gives.
struct Exp<'a> {
    x: &'a str,
    y: &'a str,
    ord: Ordering,
}
impl Exp<'_> {
    fn same(&self, got_eq: bool, got_ne: bool, got: Option<Ordering>, ops: [bool; 4], ord: Ordering, what: &str) -> R {
        let e = ord == Ordering::Equal;
        ensure!(got_eq == e && got_ne != e, "equality", "{:?} and {:?} ({what}): == is {got_eq}, != is {got_ne}", self.x, self.y);
        ensure!(got == Some(ord), "order", "{:?} and {:?} ({what}): {got:?}, expected {ord:?}", self.x, self.y);
        let exp = [ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge()];
        ensure!(ops == exp, "order operators", "{:?} and {:?} ({what}): {ops:?}, expected {exp:?}", self.x, self.y);
        Ok(())
    }
    /// Both directions.
    #[allow(clippy::partialeq_ne_impl)]
    fn pair<A, B>(&self, a: &A, b: &B, what: &str) -> R
    where
        A: ?Sized + PartialEq<B> + PartialOrd<B>,
        B: ?Sized + PartialEq<A> + PartialOrd<A>,
    {
        self.same(a == b, a != b, a.partial_cmp(b), [a < b, a <= b, a > b, a >= b], self.ord, what)?;
        self.same(b == a, b != a, b.partial_cmp(a), [b < a, b <= a, b > a, b >= a], self.ord.reverse(), what)
    }
    fn total<A: ?Sized + Ord>(&self, a: &A, b: &A, what: &str) -> R {
        self.pair(a, b, what)?;
        ensure!(a.cmp(b) == self.ord, "total order", "{:?} and {:?} ({what})", self.x, self.y);
        Ok(())
    }
}

fn hash<T: ?Sized + Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! within {
    ($e:expr, $Str:ident, $String:ident, $hits:expr) => {
        within!(@ $e, $Str, $String, IriSpec, IriSpec, same, $hits);
        within!(@ $e, $Str, $String, UriSpec, UriSpec, same, $hits);
        within!(@ $e, $Str, $String, IriSpec, UriSpec, cross, $hits);
        within!(@ $e, $Str, $String, UriSpec, IriSpec, cross, $hits);
    };
    (@ $e:expr, $Str:ident, $String:ident, $S:ident, $T:ident, $mode:ident, $hits:expr) => {{
        let e: &Exp<'_> = $e;
        let n = concat!(stringify!($Str), " ", stringify!($S), " ", stringify!($T));
        if let Ok(a) = $Str::<$S>::new(e.x) {
            // Against plain strings.
            let (ao, ac) = (a.to_owned(), Cow::Borrowed(a));
            let ac2: Cow<'_, $Str<$S>> = Cow::Owned(a.to_owned());
            let y: &str = e.y;
            let _ = y;
            within!(@ plain $mode, e, $Str, $String, $S, a, ao, ac, ac2, y, n);
            if let Ok(b) = $Str::<$T>::new(e.y) {
                $hits += 1;
                let bo = b.to_owned();
                let bc: Cow<'_, $Str<$T>> = Cow::Borrowed(b);
                e.pair(&a, b, n)?;
                e.pair(a, &bo, n)?;
                e.pair(&a, &bo, n)?;
                e.pair(&ao, &bo, n)?;
                e.pair(&a, &bc, n)?;
                e.pair(&ac, &bo, n)?;
                e.pair(&ac2, &bo, n)?;
                within!(@ $mode, e, a, b, ao, bo, ac, bc, n);
            }
        }
    }};
    (@ same, $e:expr, $a:expr, $b:expr, $ao:expr, $bo:expr, $ac:expr, $bc:expr, $n:expr) => {
        $e.total($a, $b, $n)?;
        $e.total(&$ao, &$bo, $n)?;
        $e.total(&$ac, &$bc, $n)?;
    };
    (@ cross, $e:expr, $a:expr, $b:expr, $ao:expr, $bo:expr, $ac:expr, $bc:expr, $n:expr) => {
        let _ = (&$ac, &$bc);
    };
    (@ plain cross, $e:expr, $Str:ident, $String:ident, $S:ident, $a:expr, $ao:expr, $ac:expr, $ac2:expr, $y:expr, $n:expr) => {};
    (@ plain same, $e:expr, $Str:ident, $String:ident, $S:ident, $a:expr, $ao:expr, $ac:expr, $ac2:expr, $y:expr, $n:expr) => {
        let yc: Cow<'_, str> = Cow::Borrowed($y);
        let ys: String = $y.to_string();
        $e.pair($a, $y, $n)?;
        $e.pair($a, &$y, $n)?;
        $e.pair(&$a, $y, $n)?;
        $e.pair($a, &yc, $n)?;
        $e.pair(&$a, &yc, $n)?;
        $e.pair(&$ao, $y, $n)?;
        $e.pair(&$ao, &$y, $n)?;
        $e.pair(&$ao, &yc, $n)?;
        $e.pair(&$ao, &ys, $n)?;
        // Hash: that of the text, so borrowed forms find owned ones.
        let h = hash($e.x);
        ensure!(hash($a) == h && hash(&$ao) == h && hash(&$ac) == h && hash(&$ac2) == h, "hash", "{:?} as {}", $e.x, $n);
        ensure!(hash(Borrow::<str>::borrow(&$ao)) == h && hash(Borrow::<$Str<$S>>::borrow(&$ao)) == h, "hash of borrowed", "{:?} as {}", $e.x, $n);
        let mut m: HashMap<$String<$S>, u8> = HashMap::new();
        m.insert($ao.clone(), 1);
        let found = $e.ord == Ordering::Equal;
        ensure!(m.get($y).is_some() == found, "lookup by text", "{:?} {:?} as {}", $e.x, $y, $n);
        let set: BTreeSet<$String<$S>> = [$ao.clone()].into();
        ensure!(set.contains($y) == found, "ordered lookup by text", "{:?} {:?} as {}", $e.x, $y, $n);
        if let Ok(b) = $Str::<$S>::new($y) {
            ensure!(m.get(b).is_some() == found && set.contains(b) == found, "lookup", "{:?} {:?} as {}", $e.x, $y, $n);
            let mut m: HashMap<&$Str<$S>, u8> = HashMap::new();
            m.insert($a, 1);
            ensure!(m.get(b).is_some() == found, "lookup of slices", "{:?} {:?} as {}", $e.x, $y, $n);
        }
    };
}

/// Comparisons between a type and a wider one.
macro_rules! edge {
    ($e:expr, $F:ident, $FO:ident, $T:ident, $TO:ident, $hits:expr) => {
        edge!(@ $e, $F, $FO, $T, $TO, IriSpec, IriSpec, $hits);
        edge!(@ $e, $F, $FO, $T, $TO, UriSpec, UriSpec, $hits);
        edge!(@ $e, $F, $FO, $T, $TO, IriSpec, UriSpec, $hits);
        edge!(@ $e, $F, $FO, $T, $TO, UriSpec, IriSpec, $hits);
    };
    (@ $e:expr, $F:ident, $FO:ident, $T:ident, $TO:ident, $A:ident, $B:ident, $hits:expr) => {{
        let e: &Exp<'_> = $e;
        if let (Ok(a), Ok(b)) = ($F::<$A>::new(e.x), $T::<$B>::new(e.y)) {
            $hits += 1;
            let n = concat!(stringify!($F), " ", stringify!($T), " ", stringify!($A), " ", stringify!($B));
            let (ao, bo): ($FO<$A>, $TO<$B>) = (a.to_owned(), b.to_owned());
            let (ac, bc): (Cow<'_, $F<$A>>, Cow<'_, $T<$B>>) = (Cow::Borrowed(a), Cow::Owned(b.to_owned()));
            e.pair(a, b, n)?;
            e.pair(&a, b, n)?;
            e.pair(a, &b, n)?;
            e.pair(a, &bc, n)?;
            e.pair(&a, &bc, n)?;
            e.pair(&ac, b, n)?;
            e.pair(&ac, &b, n)?;
            e.pair(a, &bo, n)?;
            e.pair(&a, &bo, n)?;
            e.pair(&ac, &bo, n)?;
            e.pair(&ao, b, n)?;
            e.pair(&ao, &b, n)?;
            e.pair(&ao, &bc, n)?;
            e.pair(&ao, &bo, n)?;
        }
    }};
}

fn templates(e: &Exp<'_>, hits: &mut u32) -> R {
    let Ok(a) = UriTemplateStr::new(e.x) else {
        return Ok(());
    };
    let (ao, y, n) = (a.to_owned(), e.y, "UriTemplate");
    let (yc, ys): (Cow<'_, str>, String) = (Cow::Borrowed(y), y.to_string());
    e.pair(a, y, n)?;
    e.pair(a, &y, n)?;
    e.pair(&a, y, n)?;
    e.pair(a, &yc, n)?;
    e.pair(&a, &yc, n)?;
    e.pair(&ao, y, n)?;
    e.pair(&ao, &y, n)?;
    e.pair(&ao, &yc, n)?;
    e.pair(&ao, &ys, n)?;
    let h = hash(e.x);
    ensure!(hash(a) == h && hash(&ao) == h, "hash", "{:?} as {n}", e.x);
    let mut m: HashMap<UriTemplateString, u8> = HashMap::new();
    m.insert(ao.clone(), 1);
    let found = e.ord == Ordering::Equal;
    ensure!(m.get(y).is_some() == found, "lookup by text", "{:?} {y:?} as {n}", e.x);
    if let Ok(b) = UriTemplateStr::new(y) {
        *hits += 1;
        e.total(a, b, n)?;
        e.total(&ao, &b.to_owned(), n)?;
        ensure!(m.get(b).is_some() == found, "lookup", "{:?} {y:?} as {n}", e.x);
    }
    Ok(())
}

fn text(src: &mut Src) -> String {
    let iri = src.bool();
    let kind = src.pick_c(&[Kind::Absolute, Kind::Full, Kind::Reference, Kind::Relative, Kind::Query, Kind::Fragment]);
    match src.weighted(&[12, 2, 1]) {
        0 => gen::valid_ref(src, iri, kind),
        1 => tm::template(src, &[], 3),
        _ => gen::soup(src, 8),
    }
}

fn check(x: &str, y: &str, cx: &mut Cx) -> R {
    let e = &Exp { x, y, ord: x.as_bytes().cmp(y.as_bytes()) };
    let mut hits = 0u32;
    let mut edges = 0u32;
    within!(e, RiReferenceStr, RiReferenceString, hits);
    within!(e, RiStr, RiString, hits);
    within!(e, RiAbsoluteStr, RiAbsoluteString, hits);
    within!(e, RiRelativeStr, RiRelativeString, hits);
    within!(e, RiQueryStr, RiQueryString, hits);
    within!(e, RiFragmentStr, RiFragmentString, hits);
    edge!(e, RiStr, RiString, RiReferenceStr, RiReferenceString, edges);
    edge!(e, RiAbsoluteStr, RiAbsoluteString, RiStr, RiString, edges);
    edge!(e, RiAbsoluteStr, RiAbsoluteString, RiReferenceStr, RiReferenceString, edges);
    edge!(e, RiRelativeStr, RiRelativeString, RiReferenceStr, RiReferenceString, edges);
    templates(e, &mut hits)?;
    cx.mark(hits > 0 && x == y, "equal texts of one kind");
    cx.mark(hits > 0 && x != y, "different texts of one kind");
    cx.mark(edges > 0 && x == y, "equal texts of two kinds");
    cx.mark(edges > 0 && x != y, "different texts of two kinds");
    if x != y && x.eq_ignore_ascii_case(y) {
        cx.label("differ in case only");
    }
    if x != y && (x.starts_with(y) || y.starts_with(x)) {
        cx.label("one is a prefix");
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    const SYM: [&str; 8] = ["s", ":", "/", "#", "?", "S", "%4a", "\u{E9}"];
    let (x, y) = match src.weighted(&[1, 20]) {
        0 => (gen::over(src, &SYM, 5), gen::over(src, &SYM, 5)),
        _ => {
            let x = text(src);
            let y = match src.weighted(&[3, 3, 2, 2, 2, 3]) {
                0 => x.clone(),
                1 => gen::mutate(src, &x, 1),
                2 => {
                    // The case of one letter.
                    let mut v: Vec<char> = x.chars().collect();
                    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
                    if !at.is_empty() {
                        let i = at[src.idx(at.len())];
                        v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
                    }
                    v.into_iter().collect()
                }
                3 => {
                    let t: Vec<char> = x.chars().collect();
                    let n = src.idx(t.len() + 1);
                    t[..n].iter().collect()
                }
                4 => format!("{x}{}", src.pick(&["a", "#", "?", "/", "%20", "\u{E9}"])),
                _ => text(src),
            };
            (x, y)
        }
    };
    cx.describe(format_args!("{x:?} and {y:?}"));
    check(&x, &y, cx)?;
    check(&y, &x, cx)
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    // Pairs of strings of up to 2 (3) symbols.
    let n = if thorough { 3 } else { 2 };
    let all: Vec<Vec<u64>> = gen::all_over(vec![], 8, n).collect();
    let other = all.clone();
    Box::new(all.into_iter().flat_map(move |a| {
        other.clone().into_iter().map(move |b| [vec![0], a.clone(), b].concat())
    }))
}

pub static PROP: Prop = Prop {
    id: "C18",
    quick: 100_000,
    thorough: 3_000_000,
    rule: "Each case is a pair of texts, compared in both directions as every pair of comparable types (string, borrowed, owned, copy-on-write; \
           same kind, narrower and wider kind, same and different repertoire) for which they are valid, with all comparison operators, hashes and \
           map lookups. Enumerated: all pairs of strings of up to 2 (3) of 8 symbols. Non-trivial: both are valid for some comparable pair of types.",
    run,
    enumerate,
    must_reach: &[
        ("equal texts of one kind", 1000),
        ("different texts of one kind", 3000),
        ("equal texts of two kinds", 500),
        ("different texts of two kinds", 1500),
        ("differ in case only", 400),
        ("one is a prefix", 1000),
    ],
    assumptions: &[],
};
