From d23df86d85190235c9ac0372e46e633268b3527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 01/18] fix: reject an empty fragment in absolute IRIs

`absolute-URI` has no fragment, so `foo:bar#` does not match the rule either.
---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..dd45623 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((query, fragment)) => (query, Some(fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // An empty fragment is also a fragment.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(fragment) => validate_fragment::<S>(fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 7c4d39cf5211324be92fa9bcd950a2038f9b3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 02/18] fix: accept fragments in the debug assertion of
 RiString::replace_host*

An IRI can have a fragment, but the assertion validated the result as an
absolute IRI, and panicked for `http://a/#f`.
---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From 91cc4c040462a56859a583669035b0f9dbef7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/18] fix: keep stray percent characters on percent-decoding

`PercentDecodedWhatwgBytes::into_bytes` and `into_string` dropped stray
percent characters and the bytes before them if the input also had a
percent-encoded triplet.
---
 src/percent_encode/decode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..fb517ae 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,8 +92,9 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            // `rest` might have been advanced by stray percent characters.
+            let len_before_pct = self.not_yet_decoded.len() - rest.len() + pct_pos;
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
@@ -167,7 +167,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // Keep the percent character as is if it does not form a valid triplet.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From a05dfaded40f884820b56b7ebf82e5d47ee6b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 04/18] fix: do not treat userinfo without a colon as having a
 password

`remove_password_inline` removed the last character of the user name, and
`replace_password` inserted a password that did not exist.
---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..1284fd3 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -28,7 +28,8 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        // `userinfo` without a colon has no password part.
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From 731087c5aa0bfd060ae3b953ff8a03634ed21165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 05/18] fix: do not treat an IRI with an empty port as
 normalized

The normalization removes the delimiter of an empty port.
---
 src/parser/trusted.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..b07c188 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -364,6 +364,11 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
     //
     // Note that `authority` can have percent-encoded `userinfo`.
     if let Some(authority) = authority {
+        // An empty port and its delimiter should be removed during normalization.
+        if authority.ends_with(':') {
+            return false;
+        }
+
         let authority_components = authority::decompose_authority(authority);
 
         // Check `host`.
-- 
2.43.0


From 01f3ae9d6ec953dd35f0a834f51a1cbbf450277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 06/18] fix: validate the characters of the path on building an
 IRI

`Builder::build` accepted paths with characters not allowed in a path, and
created invalid IRIs (such as `a b` or `%`), or IRIs with components
different from what was set (such as `a?b`).
---
 src/build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..7c23102 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,8 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
+
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From bb30330ec7b06e759da07be0490856b93b28f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 07/18] fix: normalize absolute paths that become `/` on
 building an IRI

When both the scheme and the authority are absent, `Builder` left absolute
paths such as `/a/..` as is even if the normalization is requested.
---
 src/normalize/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..1a48ce9 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,7 +582,9 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
-            // Empty path.
+            // Nothing but a slash has been written.
+            Ok(_) if writer.is_absolute == Some(true) => PathCharacteristic::CommonAbsolute,
+            // Empty path, or a relative path with only one segment.
             Ok(_) => PathCharacteristic::CommonRelative,
             Err(_) => writer
                 .result
-- 
2.43.0


From 3a7e4b80519a06990b0e950f0d05b9580f667f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/18] fix: check the inherited path on testing if a
 resolution result is normalizable

---
 src/normalize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..39d172b 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,10 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // No dot segments removal will be applied without normalization.
+            Path::Done(_) if !self.op.mode.case_pct_normalization() => Ok(()),
+            Path::Done(path) => PathToNormalize::from_single_path(path)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From e9590199e3f6319914adcbdb4fdeb2f67d6724c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 09/18] fix: reject invalid max-length of prefix modifiers in
 URI templates

---
 src/template/parser/validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..4a7c109 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,8 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            // RFC 6570: `max-length = %x31-39 0*3DIGIT`.
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
-- 
2.43.0


From ae71464530ce080da10f18a96087f8bf2006bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 10/18] fix: do not panic on a non-ASCII character after `%` in
 URI templates

---
 src/template/parser/validate.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 4a7c109..aa0a9f0 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -119,20 +119,21 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                // Note that the second byte might not be the end of a character.
+                let xdigits2 = &xdigits2_and_rest.as_bytes()[..2];
+                if !xdigits2[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From 4359e8b98b389fd33fe9cc7ae2d5392705a5a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 11/18] fix: reject empty labels in variable names of URI
 templates

---
 src/template/parser/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index aa0a9f0..eec10d8 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -62,7 +62,10 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // RFC 6570: `varname = varchar *( ["."] varchar )`.
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.ends_with('.')
+        && !rest.contains("..");
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From 1b25750336f2a533753031d91151f57e1feb149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/18] fix: count characters, not bytes, on applying prefix
 modifiers of URI templates

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From 4b81a5c0778b484c8393765aafd83e4a034cf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 13/18] fix: do not percent-encode variable names again on URI
 template expansion

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..9b75ccf 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -783,11 +783,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -870,11 +868,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From f560647a15a238fd40e3eded8749a0d6cb035281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 14/18] fix: omit `=` of empty members on exploded path-style
 parameter expansion

---
 src/template/expand.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 9b75ccf..34ff324 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -444,6 +444,20 @@ fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Writes `=` and the escaped value following the name, or `ifemp` if the value is empty.
+fn escape_write_named_member<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, _, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// Truncates the given value as a string, escapes the value, and writes it.
 fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     writer: &mut PrefixOnceWriter<'_, W>,
@@ -774,7 +788,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -786,12 +802,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named_member::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -865,7 +884,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
+                if !self.oppr.named {
+                    self.visitor.writer.write_char('=')?;
+                }
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -892,12 +913,15 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named_member::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From 222b4ca750efa60598966220b401b9333090c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 15/18] fix: keep all characters around percent-encoded
 triplets on reserved expansion

---
 src/parser/str/maybe_pct_encoded.rs | 41 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..c8bf6b6 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -142,25 +142,7 @@ where
         let mut rest = s;
         while !rest.is_empty() {
             let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
-
-                // Write plain string prefix (if found).
-                let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
-                debug_assert!(
-                    !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
-                );
-                self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
-                self.result_continue_or_err()?;
-                rest = suffix;
-                continue;
-            }
+            rest = &rest[len_consumed..];
 
             // Process decoding result.
             match result {
@@ -171,6 +153,18 @@ where
                     self.result = (self.f)(PctEncodedFragments::Char(frag, c));
                     self.result_continue_or_err()?;
                 }
+                PushResult::Undecodable(0) => {
+                    // The decoder is empty and `rest` does not start with the
+                    // percent-encoded triplets. Write plain string prefix.
+                    let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
+                    debug_assert!(
+                        !plain_prefix.is_empty(),
+                        "`Undecodable(0)` indicates non-empty `rest` not starting with `%`"
+                    );
+                    self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
+                    self.result_continue_or_err()?;
+                    rest = suffix;
+                }
                 PushResult::Undecodable(len_written) => {
                     self.output_as_undecodable(len_written)?;
                 }
@@ -178,7 +172,6 @@ where
                     // Nothing to write at this time.
                 }
             }
-            rest = &rest[len_consumed..];
         }
         Ok(())
     }
@@ -275,8 +268,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +282,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
-- 
2.43.0


From 8d00c5446f9024c38cb1c39ad3e280b18a6956c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 16/18] fix: decode triplets left after undecodable ones on
 reserved expansion

---
 src/parser/str/maybe_pct_encoded.rs | 88 +++++++++++++++++------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index c8bf6b6..2f2fcc7 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -261,6 +261,13 @@ impl DecoderBuffer {
             buf.len() >= 12,
             "[precondition] destination buffer should be at least 12 bytes"
         );
+        // Triplets can be left in the buffer after undecodable ones are removed.
+        if self.len_encoded > 0 && self.len_encoded % 3 == 0 {
+            if let Some(result) = self.decode(buf) {
+                return (0, result);
+            }
+        }
+
         let mut chars = s.chars();
         let mut len_triplet_incomplete = self.len_encoded % 3;
         for c in &mut chars {
@@ -299,48 +306,55 @@ impl DecoderBuffer {
             }
 
             // Now a new percent-encoded triplet is read.
-            // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            if let Some(result) = self.decode(buf) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
     }
 
+    /// Attempts to decode the triplets in the buffer.
+    ///
+    /// Returns `None` if more input is necessary.
+    ///
+    /// # Preconditions
+    ///
+    /// * The buffer should be nonempty and should consist of complete triplets.
+    fn decode(&mut self, buf: &mut [u8]) -> Option<PushResult> {
+        // Check if the buffer contains a valid decodable content.
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded.
+                let c = decoded_str
+                    .chars()
+                    .next()
+                    .expect("`decoded` buffer is nonempty");
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("[precondition] `encoded` buffer is nonempty");
+                self.write_and_pop(buf, len_result.get());
+                Some(PushResult::Decoded(len_result, c))
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                // `None`: Unexpected EOF. Wait for remaining input.
+                // `Some`: Skip invalid bytes.
+                let skip_len_decoded = e.error_len()?;
+                let len_result = skip_len_decoded as u8 * 3;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                self.write_and_pop(buf, len_result);
+                Some(PushResult::Undecodable(len_result))
+            }
+        }
+    }
+
     /// Writes the incomplete data completely to the destination, and clears the internal buffer.
     #[must_use]
     pub(crate) fn flush(&mut self, buf: &mut [u8]) -> Option<NonZeroU8> {
-- 
2.43.0


From 6249368874d12e81cd22fdf58f3935628b2d4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 17/18] fix: report allocation failures on masking an IRI
 without a password

---
 src/mask_password.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 1284fd3..051e9a2 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -201,12 +201,11 @@ macro_rules! impl_mask {
             type Target = $owned<S>;
 
             fn try_to_dedicated_string(&self) -> Result<Self::Target, TryReserveError> {
-                let pw_range = match password_range_to_hide(self.iri_ref.as_ref()) {
-                    Some(pw_range) => pw_range,
-                    None => return Ok(self.iri_ref.to_owned()),
-                };
-                let mut s = String::new();
                 let iri_ref = self.iri_ref.as_str();
+                // Nothing is trimmed if the IRI has no password.
+                let pw_range = password_range_to_hide(self.iri_ref.as_ref())
+                    .unwrap_or(iri_ref.len()..iri_ref.len());
+                let mut s = String::new();
                 s.try_reserve(iri_ref.len() - (pw_range.end - pw_range.start))?;
                 s.push_str(&iri_ref[..pw_range.start]);
                 s.push_str(&iri_ref[pw_range.end..]);
-- 
2.43.0


From 45bf1780f46e6ae7baf1cffdc61288f73d37caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:55 +0000
Subject: [PATCH 18/18] fix: ask for a borrowed string when deserializing
 borrowed types

`&IriStr` and the other borrowed types called `deserialize_string`, which asks
for an owned string. Formats that follow the hint (bincode, for example) hand
out an owned string then, which the visitor must refuse, so that a value which
was serialized in such a format could never be deserialized borrowed, although
`&str` could.
---
 src/template/string.rs      | 2 +-
 src/types/generic/macros.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/template/string.rs b/src/template/string.rs
index c31fe2f..a58681b 100644
--- a/src/template/string.rs
+++ b/src/template/string.rs
@@ -548,7 +548,7 @@ mod __serde_slice {
         where
             D: Deserializer<'de>,
         {
-            deserializer.deserialize_string(CustomStrVisitor)
+            deserializer.deserialize_str(CustomStrVisitor)
         }
     }
 }
diff --git a/src/types/generic/macros.rs b/src/types/generic/macros.rs
index 4459788..2184aa5 100644
--- a/src/types/generic/macros.rs
+++ b/src/types/generic/macros.rs
@@ -450,7 +450,7 @@ macro_rules! define_custom_string_slice {
                 where
                     D: Deserializer<'de>,
                 {
-                    deserializer.deserialize_string(CustomStrVisitor::<S>(PhantomData))
+                    deserializer.deserialize_str(CustomStrVisitor::<S>(PhantomData))
                 }
             }
         }
-- 
2.43.0

