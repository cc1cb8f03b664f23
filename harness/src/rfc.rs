//! ABNF as published: RFC 3986 Appendix A, RFC 3987 section 2.2, RFC 6570.

use crate::abnf::{Grammar, MAX_CHARS};
use std::sync::OnceLock;

const CORE: &str = r#"
ALPHA          = %x41-5A / %x61-7A
DIGIT          = %x30-39
HEXDIG         = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
"#;

/// RFC 3986 Appendix A.
const RFC3986: &str = r##"
URI           = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part     = "//" authority path-abempty
              / path-absolute
              / path-rootless
              / path-empty
URI-reference = URI / relative-ref
absolute-URI  = scheme ":" hier-part [ "?" query ]
relative-ref  = relative-part [ "?" query ] [ "#" fragment ]
relative-part = "//" authority path-abempty
              / path-absolute
              / path-noscheme
              / path-empty
scheme        = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority     = [ userinfo "@" ] host [ ":" port ]
userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
host          = IP-literal / IPv4address / reg-name
port          = *DIGIT
IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address   =                            6( h16 ":" ) ls32
              /                       "::" 5( h16 ":" ) ls32
              / [               h16 ] "::" 4( h16 ":" ) ls32
              / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
              / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
              / [ *3( h16 ":" ) h16 ] "::"    h16 ":"   ls32
              / [ *4( h16 ":" ) h16 ] "::"              ls32
              / [ *5( h16 ":" ) h16 ] "::"              h16
              / [ *6( h16 ":" ) h16 ] "::"
h16           = 1*4HEXDIG
ls32          = ( h16 ":" h16 ) / IPv4address
IPv4address   = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet     = DIGIT
              / %x31-39 DIGIT
              / "1" 2DIGIT
              / "2" %x30-34 DIGIT
              / "25" %x30-35
reg-name      = *( unreserved / pct-encoded / sub-delims )
path          = path-abempty
              / path-absolute
              / path-noscheme
              / path-rootless
              / path-empty
path-abempty  = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty    = 0<pchar>
segment       = *pchar
segment-nz    = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar         = unreserved / pct-encoded / sub-delims / ":" / "@"
query         = *( pchar / "/" / "?" )
fragment      = *( pchar / "/" / "?" )
pct-encoded   = "%" HEXDIG HEXDIG
unreserved    = ALPHA / DIGIT / "-" / "." / "_" / "~"
reserved      = gen-delims / sub-delims
gen-delims    = ":" / "/" / "?" / "#" / "[" / "]" / "@"
sub-delims    = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
userinfo-user = *( unreserved / pct-encoded / sub-delims )
"##;

/// RFC 3987 section 2.2.
const RFC3987: &str = r##"
IRI            = scheme ":" ihier-part [ "?" iquery ] [ "#" ifragment ]
ihier-part     = "//" iauthority ipath-abempty
               / ipath-absolute
               / ipath-rootless
               / ipath-empty
IRI-reference  = IRI / irelative-ref
absolute-IRI   = scheme ":" ihier-part [ "?" iquery ]
irelative-ref  = irelative-part [ "?" iquery ] [ "#" ifragment ]
irelative-part = "//" iauthority ipath-abempty
               / ipath-absolute
               / ipath-noscheme
               / ipath-empty
iauthority     = [ iuserinfo "@" ] ihost [ ":" port ]
iuserinfo      = *( iunreserved / pct-encoded / sub-delims / ":" )
ihost          = IP-literal / IPv4address / ireg-name
ireg-name      = *( iunreserved / pct-encoded / sub-delims )
ipath          = ipath-abempty
               / ipath-absolute
               / ipath-noscheme
               / ipath-rootless
               / ipath-empty
ipath-abempty  = *( "/" isegment )
ipath-absolute = "/" [ isegment-nz *( "/" isegment ) ]
ipath-noscheme = isegment-nz-nc *( "/" isegment )
ipath-rootless = isegment-nz *( "/" isegment )
ipath-empty    = 0<ipchar>
isegment       = *ipchar
isegment-nz    = 1*ipchar
isegment-nz-nc = 1*( iunreserved / pct-encoded / sub-delims / "@" )
ipchar         = iunreserved / pct-encoded / sub-delims / ":" / "@"
iquery         = *( ipchar / iprivate / "/" / "?" )
ifragment      = *( ipchar / "/" / "?" )
iunreserved    = ALPHA / DIGIT / "-" / "." / "_" / "~" / ucschar
ucschar        = %xA0-D7FF / %xF900-FDCF / %xFDF0-FFEF
               / %x10000-1FFFD / %x20000-2FFFD / %x30000-3FFFD
               / %x40000-4FFFD / %x50000-5FFFD / %x60000-6FFFD
               / %x70000-7FFFD / %x80000-8FFFD / %x90000-9FFFD
               / %xA0000-AFFFD / %xB0000-BFFFD / %xC0000-CFFFD
               / %xD0000-DFFFD / %xE1000-EFFFD
iprivate       = %xE000-F8FF / %xF0000-FFFFD / %x100000-10FFFD
iuserinfo-user = *( iunreserved / pct-encoded / sub-delims )
"##;

/// RFC 6570 sections 2.1 to 2.4 with erratum 6937 (apostrophe is a literal).
const RFC6570: &str = r##"
URI-Template  = *( literals / expression )
literals      =  %x21 / %x23-24 / %x26-3B / %x3D / %x3F-5B
              /  %x5D / %x5F / %x61-7A / %x7E / ucschar / iprivate
              /  pct-encoded
ascii-template = *( ascii-literals / expression )
ascii-literals =  %x21 / %x23-24 / %x26-3B / %x3D / %x3F-5B
              /  %x5D / %x5F / %x61-7A / %x7E
              /  pct-encoded
supported-template = *( ascii-literals / supported-expr )
supported-expr =  "{" [ op-level2 / op-level3 ] variable-list "}"
expression    =  "{" [ operator ] variable-list "}"
operator      =  op-level2 / op-level3 / op-reserve
op-level2     =  "+" / "#"
op-level3     =  "." / "/" / ";" / "?" / "&"
op-reserve    =  "=" / "," / "!" / "@" / "|"
variable-list =  varspec *( "," varspec )
varspec       =  varname [ modifier-level4 ]
varname       =  varchar *( ["."] varchar )
varchar       =  ALPHA / DIGIT / "_" / pct-encoded
modifier-level4 =  prefix / explode
prefix        =  ":" max-length
max-length    =  %x31-39 0*3DIGIT
explode       =  "*"
"##;

pub fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| Grammar::parse(&[CORE, RFC3986, RFC3987, RFC6570]))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
    Reference,
    Full,
    Absolute,
    Relative,
    Query,
    Fragment,
    Scheme,
    Authority,
    UserInfo,
    Host,
    RegName,
    Port,
    Path,
    PathAbEmpty,
    PathAbsolute,
    PathRootless,
    PathNoScheme,
    Segment,
    User,
    Ipv4,
    IpLiteral,
}

pub fn rule_name(kind: Kind, iri: bool) -> &'static str {
    use Kind::*;
    match (kind, iri) {
        (Reference, false) => "URI-reference",
        (Reference, true) => "IRI-reference",
        (Full, false) => "URI",
        (Full, true) => "IRI",
        (Absolute, false) => "absolute-URI",
        (Absolute, true) => "absolute-IRI",
        (Relative, false) => "relative-ref",
        (Relative, true) => "irelative-ref",
        (Query, false) => "query",
        (Query, true) => "iquery",
        (Fragment, false) => "fragment",
        (Fragment, true) => "ifragment",
        (Scheme, _) => "scheme",
        (Authority, false) => "authority",
        (Authority, true) => "iauthority",
        (UserInfo, false) => "userinfo",
        (UserInfo, true) => "iuserinfo",
        (Host, false) => "host",
        (Host, true) => "ihost",
        (RegName, false) => "reg-name",
        (RegName, true) => "ireg-name",
        (Port, _) => "port",
        (Path, false) => "path",
        (Path, true) => "ipath",
        (PathAbEmpty, false) => "path-abempty",
        (PathAbEmpty, true) => "ipath-abempty",
        (PathAbsolute, false) => "path-absolute",
        (PathAbsolute, true) => "ipath-absolute",
        (PathRootless, false) => "path-rootless",
        (PathRootless, true) => "ipath-rootless",
        (PathNoScheme, false) => "path-noscheme",
        (PathNoScheme, true) => "ipath-noscheme",
        (Segment, false) => "segment",
        (Segment, true) => "isegment",
        (Ipv4, _) => "IPv4address",
        (IpLiteral, _) => "IP-literal",
        (User, false) => "userinfo-user",
        (User, true) => "iuserinfo-user",
    }
}

/// Whether `s` matches the RFC rule of `kind`.
pub fn valid(kind: Kind, iri: bool, s: &str) -> bool {
    if s.len() <= MAX_CHARS || s.chars().count() <= MAX_CHARS {
        grammar().matches(rule_name(kind, iri), s)
    } else {
        compact::valid(kind, iri, s)
    }
}

/// Recognizers in linear time for inputs beyond the reach of the ABNF interpreter.
/// C01 and C02 compare them with the interpreter on every shorter input.
pub mod compact {
    use super::*;
    use crate::model::{hex2, Parts};

    /// Unreserved, sub-delims, triplets and `extra`.
    fn text(s: &str, iri: bool, extra: &str, private: bool) -> bool {
        let mut rest = s;
        while let Some(c) = rest.chars().next() {
            let n = if c == '%' {
                if hex2(&rest.as_bytes()[1..]).is_none() {
                    return false;
                }
                3
            } else {
                if !(is_unreserved(c, iri) || is_sub_delim(c) || extra.contains(c) || (private && iri && is_iprivate(c))) {
                    return false;
                }
                c.len_utf8()
            };
            rest = &rest[n..];
        }
        true
    }
    fn scheme(s: &str) -> bool {
        s.starts_with(|c: char| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
    }
    fn ip_literal(s: &str) -> bool {
        if s.len() <= MAX_CHARS {
            return grammar().matches("IP-literal", s);
        }
        // Too long for an IPv6 address.
        let Some(body) = s.strip_prefix("[v").or(s.strip_prefix("[V")).and_then(|b| b.strip_suffix(']')) else {
            return false;
        };
        let Some((version, rest)) = body.split_once('.') else { return false };
        !version.is_empty()
            && version.chars().all(|c| c.is_ascii_hexdigit())
            && !rest.is_empty()
            && rest.chars().all(|c| is_unreserved(c, false) || is_sub_delim(c) || c == ':')
    }
    fn host(s: &str, iri: bool) -> bool {
        ip_literal(s) || text(s, iri, "", false)
    }
    fn authority(s: &str, iri: bool) -> bool {
        let (userinfo, hp) = s.split_once('@').unwrap_or(("", s));
        // Neither a registered name nor a port has brackets or further colons.
        let (h, port) = match hp.rfind([':', ']']) {
            Some(i) if hp.as_bytes()[i] == b':' => (&hp[..i], &hp[i + 1..]),
            _ => (hp, ""),
        };
        text(userinfo, iri, ":", false) && host(h, iri) && port.chars().all(|c| c.is_ascii_digit())
    }
    fn reference(s: &str, iri: bool, scheme_is: Option<bool>, frag: bool) -> bool {
        let p = Parts::parse(s);
        scheme_is.is_none_or(|x| x == p.scheme.is_some())
            && p.scheme.as_deref().is_none_or(scheme)
            && p.authority.as_deref().is_none_or(|a| authority(a, iri))
            && text(&p.path, iri, ":@/", false)
            && (p.scheme.is_some() || p.authority.is_some() || !p.path.starts_with(':'))
            && p.query.is_none_or(|q| text(&q, iri, ":@/?", true))
            && p.fragment.is_none_or(|f| frag && text(&f, iri, ":@/?", false))
    }
    pub fn valid(kind: Kind, iri: bool, s: &str) -> bool {
        let path = || text(s, iri, ":@/", false);
        let relative = || path() && !s.starts_with('/') && !s.is_empty();
        match kind {
            Kind::Reference => reference(s, iri, None, true),
            Kind::Full => reference(s, iri, Some(true), true),
            Kind::Absolute => reference(s, iri, Some(true), false),
            Kind::Relative => reference(s, iri, Some(false), true),
            Kind::Query => text(s, iri, ":@/?", true),
            Kind::Fragment => text(s, iri, ":@/?", false),
            Kind::Scheme => scheme(s),
            Kind::Authority => authority(s, iri),
            Kind::UserInfo => text(s, iri, ":", false),
            Kind::Host => host(s, iri),
            Kind::RegName | Kind::User => text(s, iri, "", false),
            Kind::Port => s.chars().all(|c| c.is_ascii_digit()),
            Kind::Path => path(),
            Kind::PathAbEmpty => path() && (s.is_empty() || s.starts_with('/')),
            Kind::PathAbsolute => path() && s.starts_with('/') && !s.starts_with("//"),
            Kind::PathRootless => relative(),
            Kind::PathNoScheme => relative() && !s.split('/').next().unwrap().contains(':'),
            Kind::Segment => text(s, iri, ":@", false),
            Kind::Ipv4 => s.len() <= MAX_CHARS && grammar().matches("IPv4address", s),
            Kind::IpLiteral => ip_literal(s),
        }
    }
}

pub fn is_ucschar(c: char) -> bool {
    let c = c as u32;
    (0xA0..=0xD7FF).contains(&c)
        || (0xF900..=0xFDCF).contains(&c)
        || (0xFDF0..=0xFFEF).contains(&c)
        || ((0x1_0000..=0xE_FFFD).contains(&c) && (c & 0xFFFF) <= 0xFFFD && !(0xE_0000..=0xE_0FFF).contains(&c))
}
pub fn is_iprivate(c: char) -> bool {
    let c = c as u32;
    (0xE000..=0xF8FF).contains(&c) || (0xF_0000..=0xF_FFFD).contains(&c) || (0x10_0000..=0x10_FFFD).contains(&c)
}
pub fn is_unreserved(c: char, iri: bool) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '-' | '.' | '_' | '~') || (iri && is_ucschar(c))
}
pub fn is_sub_delim(c: char) -> bool {
    "!$&'()*+,;=".contains(c)
}
pub fn is_gen_delim(c: char) -> bool {
    ":/?#[]@".contains(c)
}
