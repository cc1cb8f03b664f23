//! C19: serialization.

use serde::de::value::{BorrowedStrDeserializer, CowStrDeserializer, Error as SErr, StrDeserializer, StringDeserializer, U64Deserializer, BoolDeserializer};
use serde::de::IntoDeserializer;
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serializer};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;

use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;

use crate::engine::*;
use crate::gen;
use crate::rfc::{self, Kind};
use crate::tplmodel as tm;

/// JSON with every non-ASCII character, and some others, escaped.
fn escaped(s: &str, all: bool) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        if all || !c.is_ascii() || c.is_ascii_control() || c == '"' || c == '\\' {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            out.push(c);
        }
    }
    out + "\""
}

/// A deserializer that refuses to say what it has but by `deserialize_any`-like calls
/// would be the self-describing JSON value; covered by `serde_json::Value`.
fn borrowed<'de, T>(s: &'de str, json: &'de str, valid: bool, text: impl Fn(&T) -> String, what: &str) -> R
where
    T: Deserialize<'de>,
{
    let plain_json = serde_json::from_str::<Cow<'_, str>>(json);
    let j = serde_json::from_str::<T>(json);
    // `Cow<str>` is always owned after deserializing; a JSON text without escapes is borrowed.
    ensure!(plain_json.is_ok(), "harness: json", "{json}");
    let has_escape = json.contains('\\');
    if !has_escape {
        ensure_eq!(j.is_ok(), valid, "json, borrowed", "{json} as {what}");
        if let Ok(v) = &j {
            ensure_eq!(text(v), s, "json text", "{what}");
        }
        ensure_eq!(serde_json::from_slice::<T>(json.as_bytes()).is_ok(), valid, "json bytes, borrowed", "{json} as {what}");
    } else if let Ok(v) = &j {
        ensure!(valid, "json, escaped", "{json} as {what}");
        ensure_eq!(text(v), s, "json text", "{what}");
    }
    let b = T::deserialize(BorrowedStrDeserializer::<SErr>::new(s));
    ensure_eq!(b.is_ok(), valid, "borrowed str", "{s:?} as {what}");
    if let Ok(v) = &b {
        ensure_eq!(text(v), s, "borrowed str text", "{what}");
    }
    // What lends a text to `&str` lends it to the borrowed types.
    let b = T::deserialize(Binary { s, transient: false });
    ensure_eq!(b.is_ok(), valid, "binary format, borrowed", "{s:?} as {what}");
    if let Ok(v) = &b {
        ensure_eq!(text(v), s, "binary text", "{what}");
    }
    not_a_string::<T>(what)
}

/// A format that is not for humans and does not describe itself: what it hands out depends
/// only on what it is asked for, as in bincode.
#[derive(Clone, Copy)]
struct Binary<'de> {
    s: &'de str,
    transient: bool,
}
impl<'de> Deserializer<'de> for Binary<'de> {
    type Error = SErr;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, SErr> {
        Err(serde::de::Error::custom("not self-describing"))
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        if self.transient {
            v.visit_str(&self.s.to_string())
        } else {
            v.visit_borrowed_str(self.s)
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        v.visit_string(self.s.to_string())
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SErr> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf option unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// The serializing side of such a format: takes strings only.
struct Strings;
#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not a string")
    }
}
impl std::error::Error for Never {}
type No = Impossible<String, Never>;
type Written = Result<String, Never>;
macro_rules! refuse {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<$r, Never> {
            Err(Never)
        })*
    };
}
impl Serializer for Strings {
    type Ok = String;
    type Error = Never;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_str(self, v: &str) -> Written {
        Ok(v.to_string())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Written {
        Err(Never)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Written {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Written {
        Err(Never)
    }
    refuse! {
        serialize_bool(bool) -> String; serialize_i8(i8) -> String; serialize_i16(i16) -> String; serialize_i32(i32) -> String;
        serialize_i64(i64) -> String; serialize_u8(u8) -> String; serialize_u16(u16) -> String; serialize_u32(u32) -> String;
        serialize_u64(u64) -> String; serialize_f32(f32) -> String; serialize_f64(f64) -> String; serialize_char(char) -> String;
        serialize_bytes(&[u8]) -> String; serialize_none() -> String; serialize_unit() -> String;
        serialize_unit_struct(&'static str) -> String; serialize_unit_variant(&'static str, u32, &'static str) -> String;
        serialize_seq(Option<usize>) -> No; serialize_tuple(usize) -> No; serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No; serialize_map(Option<usize>) -> No;
        serialize_struct(&'static str, usize) -> No; serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
}
impl serde::ser::Error for Never {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Never
    }
}

fn not_a_string<'de, T: Deserialize<'de>>(what: &str) -> R {
    ensure!(T::deserialize(U64Deserializer::<SErr>::new(5)).is_err(), "number", "{what}");
    ensure!(T::deserialize(BoolDeserializer::<SErr>::new(true)).is_err(), "bool", "{what}");
    ensure!(serde_json::from_str::<T>("null").is_err() && serde_json::from_str::<T>("[\"a\"]").is_err(), "not a string", "{what}");
    Ok(())
}

fn owned<T>(s: &str, jsons: &[String], valid: bool, text: impl Fn(&T) -> String, what: &str) -> R
where
    T: for<'de> Deserialize<'de> + Serialize + PartialEq + std::fmt::Debug,
{
    let mut all: Vec<(&str, Result<T, String>)> = Vec::new();
    for j in jsons {
        all.push(("json", serde_json::from_str::<T>(j).map_err(|e| e.to_string())));
        all.push(("json reader", serde_json::from_reader::<_, T>(j.as_bytes()).map_err(|e| e.to_string())));
    }
    all.push(("json value", serde_json::from_value::<T>(serde_json::Value::String(s.into())).map_err(|e| e.to_string())));
    all.push(("str", T::deserialize(StrDeserializer::<SErr>::from(s.into_deserializer())).map_err(|e| e.to_string())));
    all.push(("borrowed str", T::deserialize(BorrowedStrDeserializer::<SErr>::new(s)).map_err(|e| e.to_string())));
    let d: StringDeserializer<SErr> = s.to_string().into_deserializer();
    all.push(("string", T::deserialize(d).map_err(|e| e.to_string())));
    let d: CowStrDeserializer<'_, SErr> = Cow::<str>::Owned(s.to_string()).into_deserializer();
    all.push(("cow", T::deserialize(d).map_err(|e| e.to_string())));
    for transient in [false, true] {
        let r = T::deserialize(Binary { s, transient });
        all.push(("binary format", r.map_err(|e| e.to_string())));
    }
    // In the place of another value; after an error the place still holds a value.
    let mut place: T = serde_json::from_str("\"s:\"").or_else(|_| serde_json::from_str("\"s\"")).unwrap();
    let r = T::deserialize_in_place(&mut serde_json::Deserializer::from_str(&jsons[0]), &mut place);
    ensure_eq!(r.is_ok(), valid, "deserialize in place", "{s:?} as {what}");
    if valid {
        ensure_eq!(text(&place), s, "text in place", "{what}");
    } else {
        let left = serde_json::to_string(&place).ok();
        let again = left.as_deref().and_then(|j| serde_json::from_str::<T>(j).ok());
        ensure_eq!(again.as_ref(), Some(&place), "place after an error", "{s:?} as {what}");
    }
    for (from, r) in &all {
        ensure_eq!(r.is_ok(), valid, "deserialize", "{s:?} as {what} from {from}: {r:?}");
        let Ok(v) = r else { continue };
        ensure_eq!(text(v), s, "text", "{what} from {from}");
        let j = serde_json::to_string(v);
        ensure_eq!(j.as_deref().ok(), serde_json::to_string(s).ok().as_deref(), "serialize", "{s:?} as {what}");
        ensure_eq!(serde_json::to_value(v).ok(), Some(serde_json::Value::String(s.into())), "serialize to value", "{s:?} as {what}");
        ensure_eq!(v.serialize(Strings).ok().as_deref(), Some(s), "serialize to a binary format", "{s:?} as {what}");
        let back: Result<T, _> = serde_json::from_str(&j.unwrap());
        ensure_eq!(back.ok().as_ref(), Some(v), "round trip", "{s:?} as {what}");
    }
    if valid {
        // Inside of other values.
        let j = format!("{{\"k\":[{0},{0}]}}", jsons[0]);
        let m: Result<BTreeMap<String, Vec<Option<T>>>, _> = serde_json::from_str(&j);
        ensure!(m.is_ok_and(|m| m["k"].iter().all(|v| v.as_ref().is_some_and(|v| text(v) == s))), "nested", "{s:?} as {what}");
    }
    not_a_string::<T>(what)
}

fn run(src: &mut Src, cx: &mut Cx) -> R {
    const SYM: [&str; 12] = ["s", ":", "/", "#", "?", "%4a", "%", "\u{E9}", " ", "[", "@", "\""];
    let s = match src.weighted(&[1, 20]) {
        0 => gen::over(src, &SYM, 6),
        _ => {
            let iri = src.bool();
            match src.weighted(&[8, 3, 2, 3]) {
                0 => {
                    let k = src.pick_c(&[Kind::Absolute, Kind::Full, Kind::Reference, Kind::Relative, Kind::Query, Kind::Fragment]);
                    let v = gen::valid_ref(src, iri, k);
                    if src.chance(1, 3) {
                        gen::mutate(src, &v, 2)
                    } else {
                        v
                    }
                }
                1 => tm::template(src, &[], 3),
                2 => {
                    let t = tm::template(src, &[], 3);
                    gen::mutate(src, &t, 2)
                }
                _ => gen::soup(src, 10),
            }
        }
    };
    let s = if src.chance(1, 400) { gen::stretch_to_chars(src, &s, 5000) } else { s.chars().take(200).collect() };
    cx.describe(format_args!("{s:?}"));
    let jsons = [serde_json::to_string(&s).unwrap(), escaped(&s, false), escaped(&s, true)];
    let (mut yes, mut no) = (0, 0);
    macro_rules! ty {
        ($Str:ident, $String:ident, $kind:expr) => {
            ty!(@ $Str, $String, $kind, IriSpec, true);
            ty!(@ $Str, $String, $kind, UriSpec, false);
        };
        (@ $Str:ident, $String:ident, $kind:expr, $S:ident, $iri:expr) => {{
            let valid = rfc::valid($kind, $iri, &s);
            yes += u32::from(valid);
            no += u32::from(!valid);
            let n = concat!(stringify!($String), "<", stringify!($S), ">");
            owned::<$String<$S>>(&s, &jsons, valid, |v| v.as_str().to_string(), n)?;
            for j in &jsons {
                borrowed::<&$Str<$S>>(&s, j, valid, |v| v.as_str().to_string(), n)?;
            }
            if let Ok(v) = $Str::<$S>::new(&s) {
                ensure_eq!(serde_json::to_string(v).ok().as_ref(), Some(&jsons[0]), "serialize slice", "{s:?} as {n}");
            }
        }};
    }
    ty!(RiReferenceStr, RiReferenceString, Kind::Reference);
    ty!(RiStr, RiString, Kind::Full);
    ty!(RiAbsoluteStr, RiAbsoluteString, Kind::Absolute);
    ty!(RiRelativeStr, RiRelativeString, Kind::Relative);
    ty!(RiQueryStr, RiQueryString, Kind::Query);
    ty!(RiFragmentStr, RiFragmentString, Kind::Fragment);
    let tpl = tm::valid_template(&s);
    owned::<UriTemplateString>(&s, &jsons, tpl, |v| v.as_str().to_string(), "UriTemplateString")?;
    for j in &jsons {
        borrowed::<&UriTemplateStr>(&s, j, tpl, |v| v.as_str().to_string(), "UriTemplateStr")?;
    }
    if let Ok(v) = UriTemplateStr::new(&s) {
        ensure_eq!(serde_json::to_string(v).ok().as_ref(), Some(&jsons[0]), "serialize slice", "{s:?} as template");
    }
    cx.mark(yes > 0 && no > 0, "valid for some types only");
    cx.mark(yes > 0, "valid for some type");
    if yes == 0 {
        cx.label("valid for no type");
    }
    if yes > 0 && !s.is_ascii() {
        cx.label("valid, not ASCII");
    }
    if tpl && s.contains('{') {
        cx.label("template");
    }
    Ok(())
}

fn enumerate(thorough: bool) -> Box<dyn Iterator<Item = Vec<u64>>> {
    gen::all_over(vec![0], 12, if thorough { 4 } else { 3 }).pipe()
}
trait Boxed {
    fn pipe(self) -> Box<dyn Iterator<Item = Vec<u64>>>;
}
impl<I: Iterator<Item = Vec<u64>> + 'static> Boxed for I {
    fn pipe(self) -> Box<dyn Iterator<Item = Vec<u64>>> {
        Box::new(self)
    }
}

pub static PROP: Prop = Prop {
    id: "C19",
    quick: 180_000,
    thorough: 2_000_000,
    rule: "Each case is one text, deserialized as all 12 owned and borrowed types and as a template from JSON (plain and escaped, by text, bytes, reader \
           and value), from borrowed, transient and owned strings, from a format that is not for humans \
           and hands out what it is asked for (lent or owned), and in the place of another value; what succeeds is serialized again. Enumerated: all strings of up \
           to 3 (4) of 12 symbols. Non-trivial: valid for some type.",
    run,
    enumerate,
    must_reach: &[
        ("valid for some types only", 3000),
        ("valid for no type", 1000),
        ("valid, not ASCII", 390),
        ("template", 500),
    ],
    assumptions: &["borrowed types need input that can be borrowed (documented); escaped JSON may be refused for them"],
};
