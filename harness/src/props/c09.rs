//! C09: percent-decoding against a byte-wise decoder.

use std::borrow::Cow;

use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};

use crate::engine::*;
use crate::gen;

const SYM: &[&[u8]] = &[b"%", b"4", b"1", b"f", b"G", b"a", b"\xC3", b"%C3", b"%a9"];

#[derive(Debug, PartialEq, Clone)]
enum Frag {
    Direct(Vec<u8>),
    Decoded(u8),
    Stray,
}

/// The percent-decode algorithm of the WHATWG URL Standard, with its steps kept.
fn decode(b: &[u8]) -> Vec<Frag> {
    let hex = |x: Option<&u8>| x.and_then(|x| char::from(*x).to_digit(16)).map(|x| x as u8);
    let mut out: Vec<Frag> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match (b[i], hex(b.get(i + 1)), hex(b.get(i + 2))) {
            (b'%', Some(h), Some(l)) => {
                out.push(Frag::Decoded(h * 16 + l));
                i += 2;
            }
            (b'%', _, _) => out.push(Frag::Stray),
            (x, _, _) => match out.last_mut() {
                Some(Frag::Direct(v)) => v.push(x),
                _ => out.push(Frag::Direct(vec![x])),
            },
        }
        i += 1;
    }
    out
}

fn check(b: &[u8]) -> R {
    let frags = decode(b);
    let mut bytes = Vec::new();
    for f in &frags {
        match f {
            Frag::Direct(v) => bytes.extend(v),
            Frag::Decoded(x) => bytes.push(*x),
            Frag::Stray => bytes.push(b'%'),
        }
    }
    let nothing = !frags.iter().any(|f| matches!(f, Frag::Decoded(_)));
    let d = decode_whatwg_bytes(b);
    let shown = String::from_utf8_lossy(b);
    ensure_eq!(d.not_yet_decoded(), b, "not_yet_decoded", "{shown:?}");
    ensure_eq!(d.to_bytes(), nothing.then_some(b), "to_bytes", "{shown:?} {b:?}");
    let got = d.into_bytes();
    ensure_eq!(&*got, &bytes[..], "into_bytes", "{shown:?} {b:?}");
    ensure_eq!(matches!(got, Cow::Borrowed(_)), nothing, "borrowed iff nothing to decode", "{shown:?}");
    match (d.into_string(), String::from_utf8(bytes.clone())) {
        (Ok(a), Ok(e)) => ensure_eq!(a, e, "into_string", "{shown:?}"),
        (Err(a), Err(e)) => ensure_eq!(a.as_bytes(), e.as_bytes(), "into_string (error)", "{shown:?}"),
        (a, e) => return fail("into_string", format!("{shown:?} {b:?}: got {a:?}, expected {e:?}")),
    }
    let mut it = d.bytes_fragments();
    let mut pos = 0;
    let mut got = Vec::new();
    loop {
        ensure_eq!(it.not_yet_decoded(), &b[pos..], "remaining bytes", "{shown:?} after {got:?}");
        let copy: Vec<_> = it.clone().take(if b.len() < 200 { usize::MAX } else { 2 }).collect();
        let Some(f) = it.next() else {
            ensure_eq!(it.next(), None, "fused", "{shown:?}");
            break;
        };
        ensure_eq!(copy.first(), Some(&f), "clone", "{shown:?}");
        match f {
            DecodedFragment::Direct(x) => {
                ensure!(!x.is_empty(), "empty fragment", "{shown:?}");
                pos += x.len();
                // Adjacent plain pieces are one piece.
                match got.last_mut() {
                    Some(Frag::Direct(v)) => v.extend(x),
                    _ => got.push(Frag::Direct(x.to_vec())),
                }
            }
            DecodedFragment::DecodedByte(x) => {
                pos += 3;
                got.push(Frag::Decoded(x));
            }
            DecodedFragment::StrayPercent => {
                pos += 1;
                got.push(Frag::Stray);
            }
        }
        ensure!(pos <= b.len(), "fragments exceed the input", "{shown:?}: {got:?}");
    }
    ensure_eq!(got, frags, "fragments", "{shown:?} {b:?}");
    // Comparison is by the raw bytes.
    ensure!(d == decode_whatwg_bytes(b), "eq", "{shown:?}");
    Ok(())
}

fn bytes(src: &mut Src) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let n = if src.chance(1, 8) { src.range(20, 60) } else { src.range(0, 14) };
    for _ in 0..n {
        match src.weighted(&[5, 5, 3, 3, 2, 2]) {
            0 => v.push(b'%'),
            1 => v.push(src.pick_c(b"0123456789abcdefABCDEFgG@`/:")),
            2 => v.extend(format!("%{:02X}", src.below(256)).bytes()),
            3 => {
                let mut s = String::new();
                gen::pct(src, &mut s);
                v.extend(s.bytes());
            }
            4 => v.push(src.below(256) as u8),
            _ => v.extend(src.pick(&["hello", "a", "\u{E9}", "/", "\u{3042}", "100% ", "\u{FF10}"]).bytes()),
        }
    }
    if src.chance(1, 400) {
        // A long stretch somewhere.
        let unit = src.pick(&["a", "%41", "%", "%4", "\u{E9}", "%C3%A9", "a%", "aaaaaaaaaaaaaaa%7e"]);
        let n = gen::long_len(src, 14) / unit.len();
        let at = src.idx(v.len() + 1);
        v.splice(at..at, unit.repeat(n).bytes());
    }
    v
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    let b: Vec<u8> = match src.weighted(&[1, 1, 30]) {
        0 => {
            let n = src.idx(7);
            (0..n).flat_map(|_| SYM[src.idx(SYM.len())].to_vec()).collect()
        }
        1 => {
            // `%` and all pairs of bytes that start with this one.
            let h = src.below(256) as u8;
            cx.describe(format_args!("all triplets %{h:02x}.."));
            for l in 0..=255u8 {
                check(&[b'%', h, l])?;
                check(&[b'a', b'%', h, l, b'%', b'4', b'1'])?;
            }
            cx.mark(true, "all triplets with one first byte");
            return Ok(());
        }
        _ => bytes(src),
    };
    cx.describe(format_args!("{:?}", String::from_utf8_lossy(&b)));
    check(&b)?;
    let f = decode(&b);
    let dec = f.iter().any(|f| matches!(f, Frag::Decoded(_)));
    let stray = f.iter().any(|f| *f == Frag::Stray);
    cx.mark(dec, "decodes something");
    cx.mark(stray, "stray percent");
    cx.mark(
        f.windows(2).any(|w| w[0] == Frag::Stray && matches!(w[1], Frag::Decoded(_))),
        "stray percent right before a triplet",
    );
    cx.mark(dec && stray, "both");
    cx.mark(b.len() > 200, "long");
    if dec && decode_whatwg_bytes(&b).into_string().is_err() {
        cx.label("not UTF-8");
    }
    if dec && !b.is_ascii() {
        cx.label("non-ASCII input");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    let n = if thorough { 6 } else { 5 };
    Box::new((0..256u64).map(|h| vec![1, h]).chain(gen::all_over(vec![0], SYM.len() as u64, n)))
}

pub static PROP: Prop = Prop {
    id: "C09",
    quick: 2_400_000,
    thorough: 20_000_000,
    rule: "Each case is one byte sequence decoded by every view (`%` with all 65536 pairs of bytes; all sequences of up to 5 symbols out \
           of 9; then generated ones). Non-trivial: it holds a triplet or a stray percent.",
    run,
    enumerate,
    must_reach: &[
        ("decodes something", 3370),
        ("stray percent", 3060),
        ("both", 3000),
        ("long", 10),
        ("stray percent right before a triplet", 1000),
        ("not UTF-8", 1000),
        ("non-ASCII input", 1000),
    ],
    assumptions: &[],
};
