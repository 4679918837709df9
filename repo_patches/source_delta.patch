From 91157bfce8dd8848da37bdfb0e6d6bc5f5bc2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 01/19] fix: accept trailing white space at the end of
 structured header lines

---
 email-parser/src/parsing/whitespaces.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 928f41f..2247c49 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -84,7 +84,7 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
             }
         }
 
-        let (input, fws) = optional(input, fws);
+        let (input, fws) = optional(input, fws_or_trailing_wsp);
         if let Some(s) = fws {
             add_string(&mut output, s);
         }
@@ -92,7 +92,16 @@ pub fn cfws(input: &[u8]) -> Res<Cow<str>> {
         Ok((input, output))
     }
 
-    match_parsers(input, &mut [real_cfws, fws][..])
+    // A line can end with white spaces without being followed by a folded line
+    fn fws_or_trailing_wsp(input: &[u8]) -> Res<Cow<str>> {
+        if let Ok(result) = fws(input) {
+            return Ok(result);
+        }
+        let (input, wsp) = take_while1(input, is_wsp)?;
+        Ok((input, Cow::Borrowed(wsp)))
+    }
+
+    match_parsers(input, &mut [real_cfws, fws_or_trailing_wsp][..])
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9b85179433ede86275d1a38ff83d24c53ab020e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 02/19] fix: do not overflow the stack on deeply nested
 comments

---
 email-parser/src/parsing/whitespaces.rs | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/email-parser/src/parsing/whitespaces.rs b/email-parser/src/parsing/whitespaces.rs
index 2247c49..9bb9ebc 100644
--- a/email-parser/src/parsing/whitespaces.rs
+++ b/email-parser/src/parsing/whitespaces.rs
@@ -37,21 +37,34 @@ pub fn ccontent(input: &[u8]) -> Res<Cow<str>> {
                 Ok((input, Cow::Borrowed(value)))
             }) as fn(input: &[u8]) -> Res<Cow<str>>,
             quoted_pair,
-            comment,
         ][..],
     )
 }
 
 #[inline]
 pub fn comment(input: &[u8]) -> Res<Cow<str>> {
-    let (input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
-
-    let (input, _) = ignore_many(input, |input| {
-        pair(input, |i| Ok(optional(i, fws)), ccontent)
-    })?;
-
-    let (input, _) = optional(input, fws);
-    let (input, ()) = tag(input, b")", "TAG ERROR: A comment must end with a `)`.")?;
+    let (mut input, ()) = tag(input, b"(", "TAG ERROR: A comment must start with a `(`.")?;
+
+    // Comments can be nested, so we count the comments which are still open instead of using recursion.
+    // The nesting level is chosen by the author of the mail, so recursion could overflow the stack.
+    let mut depth: usize = 1;
+    while depth > 0 {
+        let (new_input, _) = optional(input, fws);
+        if let Ok((new_input, ())) = tag(new_input, b"(", "TAG ERROR: Expected a nested comment.") {
+            depth += 1;
+            input = new_input;
+        } else if let Ok((new_input, _)) = ccontent(new_input) {
+            input = new_input;
+        } else {
+            let (new_input, ()) = tag(
+                new_input,
+                b")",
+                "TAG ERROR: A comment must end with a `)`.",
+            )?;
+            depth -= 1;
+            input = new_input;
+        }
+    }
 
     Ok((input, empty_string()))
 }
-- 
2.43.0


From 5c0a39a1ec121bc66ba57826af43d82160c3b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 03/19] fix: do not overflow on 256 continuations of a MIME
 parameter

---
 email-parser/src/parsing/mime/percent_encoding.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 643fb9f..57fc5e0 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -162,8 +162,12 @@ pub fn collect_parameters<'a>(
                 (value, None, None)
             };
 
-            let mut idx = 1;
-            while let Some((encoded, new_value)) = values.remove(&idx) {
+            let mut idx: u8 = 0;
+            while let Some((encoded, new_value)) = idx
+                .checked_add(1)
+                .and_then(|next_idx| values.remove(&next_idx))
+            {
+                idx += 1;
                 if encoded && charset.is_some() {
                     add_string(
                         &mut value,
@@ -175,7 +179,6 @@ pub fn collect_parameters<'a>(
                 } else {
                     add_string(&mut value, new_value);
                 }
-                idx += 1;
             }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
-- 
2.43.0


From 0b0dfaca4eca20c74ee78140ad05e0ad4e7d5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 04/19] fix: do not panic on unassigned bytes in iso-6937 text

---
 email-parser/src/parsing/mime/encoded_headers.rs  |  2 +-
 email-parser/src/parsing/mime/entity.rs           |  2 +-
 email-parser/src/parsing/mime/mod.rs              | 15 +++++++++++++++
 email-parser/src/parsing/mime/percent_encoding.rs |  2 +-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/mime/encoded_headers.rs b/email-parser/src/parsing/mime/encoded_headers.rs
index e8d3fcf..8565066 100644
--- a/email-parser/src/parsing/mime/encoded_headers.rs
+++ b/email-parser/src/parsing/mime/encoded_headers.rs
@@ -106,7 +106,7 @@ pub fn encoded_word(input: &[u8]) -> Res<Cow<str>> {
         "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&value)),
         "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&value)),
         "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&value)),
-        "iso-6937" => Cow::Owned(iso6937::decode_to_string(&value)),
+        "iso-6937" => Cow::Owned(super::decode_iso6937(&value)),
         "gb2312" => Cow::Owned(gb2312::decode_to_string(&value)),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index 86ab886..a2716af 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -76,7 +76,7 @@ pub fn entity<'a>(raw_entity: &'a RawEntity<'a>) -> Result<Entity<'a>, Error> {
                 "iso-8859-14" => Cow::Owned(iso8859_14::decode_to_string(&raw_entity.value)),
                 "iso-8859-15" => Cow::Owned(iso8859_15::decode_to_string(&raw_entity.value)),
                 "iso-8859-16" => Cow::Owned(iso8859_16::decode_to_string(&raw_entity.value)),
-                "iso-6937" => Cow::Owned(iso6937::decode_to_string(&raw_entity.value)),
+                "iso-6937" => Cow::Owned(super::decode_iso6937(&raw_entity.value)),
                 "gb2312" => Cow::Owned(gb2312::decode_to_string(&raw_entity.value)),
                 _ => return Ok(Entity::Unknown),
             };
diff --git a/email-parser/src/parsing/mime/mod.rs b/email-parser/src/parsing/mime/mod.rs
index 695a5d5..8597c9c 100644
--- a/email-parser/src/parsing/mime/mod.rs
+++ b/email-parser/src/parsing/mime/mod.rs
@@ -6,3 +6,18 @@ pub(crate) mod mime_fields;
 pub(crate) mod multipart;
 pub(crate) mod percent_encoding;
 pub(crate) mod quoted_printables;
+
+/// Decodes a text encoded with iso-6937.
+///
+/// `textcode` panics on the bytes `0x80..=0x9F`, which are not assigned in this charset.
+/// They are replaced with `0xA6`, which is not assigned either but is correctly decoded as a replacement character.
+pub(crate) fn decode_iso6937(data: &[u8]) -> String {
+    let data: Vec<u8> = data
+        .iter()
+        .map(|byte| match byte {
+            0x80..=0x9F => 0xA6,
+            byte => *byte,
+        })
+        .collect();
+    textcode::iso6937::decode_to_string(&data)
+}
diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 57fc5e0..2570687 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -87,7 +87,7 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         "iso-8859-14" => iso8859_14::decode_to_string(&input),
         "iso-8859-15" => iso8859_15::decode_to_string(&input),
         "iso-8859-16" => iso8859_16::decode_to_string(&input),
-        "iso-6937" => iso6937::decode_to_string(&input),
+        "iso-6937" => super::decode_iso6937(&input),
         "gb2312" => gb2312::decode_to_string(&input),
         _ => return Err(Error::Unknown("Unknown charset")),
     };
-- 
2.43.0


From d74dc4ff58c77779a10445fee780403352b0a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 05/19] fix: recognize addresses without angle brackets in
 Received fields

---
 email-parser/src/parsing/fields.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 8a47b9d..5235cf2 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -542,7 +542,10 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
         "TAG NO CASE ERROR: Header name (Received) does not match.",
     )?;
     let (input, received_tokens) = many(input, |input| {
-        if let Ok((word_input, word)) = word(input) {
+        // The local part of an address is a valid word, so addresses must be tried first.
+        if let Ok((input, addr)) = addr_spec(input) {
+            Ok((input, ReceivedToken::Addr(addr)))
+        } else if let Ok((word_input, word)) = word(input) {
             if let Ok((domain_input, domain)) = domain(input) {
                 if domain.len() > word.len() {
                     return Ok((domain_input, ReceivedToken::Domain(domain)));
@@ -551,8 +554,6 @@ pub fn received(input: &[u8]) -> Res<(Vec<ReceivedToken>, DateTime)> {
             Ok((word_input, ReceivedToken::Word(word)))
         } else if let Ok((input, addr)) = angle_addr(input) {
             Ok((input, ReceivedToken::Addr(addr)))
-        } else if let Ok((input, addr)) = addr_spec(input) {
-            Ok((input, ReceivedToken::Addr(addr)))
         } else if let Ok((input, domain)) = domain(input) {
             Ok((input, ReceivedToken::Domain(domain)))
         } else {
-- 
2.43.0


From ff3bb1cf7c9d092f2ab61bdce75de744e1b4ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 06/19] fix: accept an empty Bcc field

---
 email-parser/src/parsing/fields.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/email-parser/src/parsing/fields.rs b/email-parser/src/parsing/fields.rs
index 5235cf2..7b21a75 100644
--- a/email-parser/src/parsing/fields.rs
+++ b/email-parser/src/parsing/fields.rs
@@ -278,10 +278,9 @@ pub fn bcc(input: &[u8]) -> Res<Vec<Address>> {
     )?;
     let (input, mailbox) = if let Ok((input, list)) = address_list(input) {
         (input, list)
-    } else if let Ok((input, _cfws)) = cfws(input) {
-        (input, Vec::new())
     } else {
-        return Err(Error::Unknown("Invalid bcc field"));
+        let (input, _cfws) = optional(input, cfws);
+        (input, Vec::new())
     };
     let (input, ()) = tag(
         input,
-- 
2.43.0


From 30d5992e036433c099ef9765ab71e42094a24d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 07/19] fix: accept years from 1900 to 1989

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index e90fca3..cd281d7 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -68,8 +68,8 @@ pub fn year(input: &[u8]) -> Res<usize> {
         .parse()
         .map_err(|_e| Error::Unknown("Failed to parse year"))?;
 
-    if year < 1990 {
-        return Err(Error::Unknown("year must be after 1990"));
+    if year < 1900 {
+        return Err(Error::Unknown("year must be 1900 or later"));
     }
 
     let (input, _) = fws(input)?;
-- 
2.43.0


From 315bbb2542c9c957a4a3956296387978f2bcc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 08/19] fix: reject day 0 in dates

---
 email-parser/src/parsing/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/time.rs b/email-parser/src/parsing/time.rs
index cd281d7..90a4743 100644
--- a/email-parser/src/parsing/time.rs
+++ b/email-parser/src/parsing/time.rs
@@ -85,8 +85,8 @@ pub fn day(input: &[u8]) -> Res<u8> {
         day += digit;
         input = new_input;
     }
-    if day > 31 {
-        return Err(Error::Unknown("day must be less than 31"));
+    if day < 1 || day > 31 {
+        return Err(Error::Unknown("day must be between 1 and 31"));
     }
     let (input, _) = fws(input)?;
     Ok((input, day))
-- 
2.43.0


From b6acbedb412a498463b72565a75355aa8e0ba752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 09/19] fix: decode extended MIME parameters which are not
 split

---
 email-parser/src/parsing/mime/percent_encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 2570687..87ad9a0 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -101,6 +101,8 @@ pub fn collect_parameters<'a>(
     let mut parameters: HashMap<_, _> = HashMap::new();
     let mut complex_parameters: HashMap<_, HashMap<_, _>> = HashMap::new();
     for (name, index, encoded, value) in parameters_vec {
+        // `name*=value` is the same as a single section `name*0*=value`
+        let index = if encoded { index.or(Some(0)) } else { index };
         if let Some(index) = index {
             if !complex_parameters.contains_key(&name) {
                 complex_parameters.insert(name.clone(), HashMap::new());
-- 
2.43.0


From 836fd686ac9605ad002abb3ee7b911df6a823e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 10/19] fix: report split and encoded filenames as filenames

---
 email-parser/src/parsing/mime/mime_fields.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 06660c4..e78c671 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -347,6 +347,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         }
     }
     disposition.unstructured = super::percent_encoding::collect_parameters(parameters_vec)?;
+    // The filename can also be split and encoded, in which case it is only known now
+    if let Some(filename) = disposition.unstructured.remove("filename") {
+        disposition.filename = Some(filename);
+    }
 
     let (input, ()) = ignore_inline_cfws(input)?;
     let (input, ()) = tag(
-- 
2.43.0


From 77f607de785e61a768b7592c8f4f54151c721394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 11/19] fix: find multipart delimiters as specified by RFC 2046

---
 email-parser/src/parsing/mime/multipart.rs | 62 ++++++++++++++--------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/email-parser/src/parsing/mime/multipart.rs b/email-parser/src/parsing/mime/multipart.rs
index 82c6123..07f36ac 100644
--- a/email-parser/src/parsing/mime/multipart.rs
+++ b/email-parser/src/parsing/mime/multipart.rs
@@ -2,25 +2,46 @@ use crate::prelude::*;
 use std::borrow::Cow;
 use std::collections::HashMap;
 
+/// Returns the lenght of the delimiter line the input starts with, if there is one.
+/// White spaces are ignored after the boundary.
+/// The CRLF sequence following a closing delimiter can be omitted at the end of the data.
+fn delimiter_len(input: &[u8], boundary: &[u8], closing: bool) -> Option<usize> {
+    let mut len = 2 + boundary.len();
+    if !input.starts_with(b"--") || input.get(2..len) != Some(boundary) {
+        return None;
+    }
+    if closing {
+        if input.get(len..len + 2) != Some(b"--") {
+            return None;
+        }
+        len += 2;
+    }
+
+    len += input[len..].iter().take_while(|c| is_wsp(**c)).count();
+
+    if input[len..].starts_with(b"\r\n") {
+        Some(len + 2)
+    } else if closing && len == input.len() {
+        Some(len)
+    } else {
+        None
+    }
+}
+
 fn before_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
-    let full_boundary_len = 2 + 2 + boundary.len() + 2;
-
-    // FIXME: ignore whitespaces after the boundary
-    if full_boundary_len - 2 <= input.len()
-        && input.get(..2) == Some(b"--")
-        && input.get(2..2 + boundary.len()) == Some(boundary)
-        && input.get(2 + boundary.len()..full_boundary_len - 2) == Some(b"\r\n")
-    {
-        return Ok((0, full_boundary_len - 2));
+    if let Some(len) = delimiter_len(input, boundary, false) {
+        return Ok((0, len));
     }
 
     for idx in 0..input.len() {
-        // FIXME: ignore whitespaces after the boundary
-        if input.get(idx..idx + 4) == Some(b"\r\n--")
-            && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"\r\n")
-        {
-            return Ok((idx, full_boundary_len));
+        if input.get(idx..idx + 2) == Some(b"\r\n") {
+            if let Some(len) = delimiter_len(&input[idx + 2..], boundary, false) {
+                return Ok((idx, 2 + len));
+            }
+            if delimiter_len(&input[idx + 2..], boundary, true).is_some() {
+                // Everything after this is the epilogue
+                break;
+            }
         }
     }
 
@@ -44,14 +65,11 @@ fn before_boundary<'a, 'b>(input: &'a [u8], boundary: &'b [u8]) -> Res<'a, &'a [
 }
 
 fn before_closing_boundary_idx(input: &[u8], boundary: &[u8]) -> Result<(usize, usize), Error> {
-    let full_boundary_len = 2 + 2 + boundary.len() + 2 + 2;
     for idx in 0..input.len() {
-        // FIXME: ignore whitespaces after the boundary
-        if input.get(idx..idx + 4) == Some(b"\r\n--")
-            && input.get(idx + 4..idx + 4 + boundary.len()) == Some(boundary)
-            && input.get(idx + 4 + boundary.len()..idx + full_boundary_len) == Some(b"--\r\n")
-        {
-            return Ok((idx, full_boundary_len));
+        if input.get(idx..idx + 2) == Some(b"\r\n") {
+            if let Some(len) = delimiter_len(&input[idx + 2..], boundary, true) {
+                return Ok((idx, 2 + len));
+            }
         }
     }
 
-- 
2.43.0


From 1d056fe01671032ef8104bc40693c4c7b05cbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 12/19] fix: decode quoted-printable and percent encodings in
 linear time

---
 .../src/parsing/mime/percent_encoding.rs      |  51 ++++----
 .../src/parsing/mime/quoted_printables.rs     | 115 ++++++++----------
 2 files changed, 71 insertions(+), 95 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index 87ad9a0..c9acf45 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -33,39 +33,34 @@ pub fn decode_parameter(mut input: Vec<u8>, charset: Cow<str>) -> Result<String,
         return Ok(unsafe { String::from_utf8_unchecked(input.to_vec()) });
     }
 
-    let mut percents = Vec::new();
-    for (idx, byte) in input.iter().enumerate() {
-        if *byte == b'%' {
-            percents.push(idx);
+    fn from_hex(n: &u8) -> Option<u8> {
+        match n {
+            b'0'..=b'9' => Some(n - b'0'),
+            b'A'..=b'F' => Some(10 + n - b'A'),
+            b'a'..=b'f' => Some(10 + n - b'a'),
+            _ => None,
         }
     }
 
-    for percent in percents.iter().rev() {
-        fn from_hex(n: &u8) -> Option<u8> {
-            match n {
-                b'0'..=b'9' => Some(n - b'0'),
-                b'A'..=b'F' => Some(10 + n - b'A'),
-                b'a'..=b'f' => Some(10 + n - b'a'),
-                _ => None,
-            }
-        }
-
-        if let (Some(first), Some(second)) = (input.get(percent + 1), input.get(percent + 2)) {
-            if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                let n = first * 16 + second;
-                // JUSTIFICATION
-                //  Benefit
-                //      Improve performances by avoiding useless index checks.
-                //  Correctness:
-                //      We never delete items before `percent`. Since `percent` is decreasing, there is always an item at this index.
-                unsafe {
-                    *input.get_unchecked_mut(*percent) = n;
-                }
-                input.remove(percent + 2);
-                input.remove(percent + 1);
-            }
+    // The bytes are moved to their final position one by one because removing the
+    // digits from the vector after each percent sign would have a quadratic cost.
+    let mut len = 0;
+    let mut idx = 0;
+    while idx < input.len() {
+        let digits = match (input[idx], input.get(idx + 1), input.get(idx + 2)) {
+            (b'%', Some(first), Some(second)) => from_hex(first).zip(from_hex(second)),
+            _ => None,
+        };
+        if let Some((first, second)) = digits {
+            input[len] = first * 16 + second;
+            idx += 3;
+        } else {
+            input[len] = input[idx];
+            idx += 1;
         }
+        len += 1;
     }
+    input.truncate(len);
 
     use textcode::*;
     let text = match charset.as_ref() {
diff --git a/email-parser/src/parsing/mime/quoted_printables.rs b/email-parser/src/parsing/mime/quoted_printables.rs
index 6511252..5c02c87 100644
--- a/email-parser/src/parsing/mime/quoted_printables.rs
+++ b/email-parser/src/parsing/mime/quoted_printables.rs
@@ -58,99 +58,80 @@ pub fn encode_qp(mut data: Vec<u8>) -> Vec<u8> {
     data
 }
 
-pub fn decode_qp(mut data: Vec<u8>) -> Vec<u8> {
+/// The replacement character, used for bytes that must not appear in encoded data.
+const REPLACEMENT: [u8; 3] = [239, 191, 189];
+
+fn from_hex(n: u8) -> Option<u8> {
+    match n {
+        b'0'..=b'9' => Some(n - b'0'),
+        b'A'..=b'F' => Some(10 + n - b'A'),
+        b'a'..=b'f' => Some(10 + n - b'a'),
+        _ => None,
+    }
+}
+
+/// Decodes the escape sequence starting at `idx` (where there is an equal sign) and returns its lenght.
+fn decode_escape(data: &[u8], idx: usize, output: &mut Vec<u8>) -> usize {
+    match (data.get(idx + 1), data.get(idx + 2)) {
+        (Some(b'\r'), Some(b'\n')) => 3,
+        (Some(first), Some(second)) => {
+            if let (Some(first), Some(second)) = (from_hex(*first), from_hex(*second)) {
+                output.push(first * 16 + second);
+            } else {
+                output.extend_from_slice(&REPLACEMENT);
+            }
+            3
+        }
+        _ => {
+            output.push(b'=');
+            1
+        }
+    }
+}
+
+// The output is written in another vector because removing or inserting bytes in place would have a quadratic cost.
+pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut output = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx) {
         if litteral_repr_possible(byte) || byte == &b' ' || byte == &b'\t' {
+            output.push(*byte);
             idx += 1;
         } else if byte == &b'=' {
-            if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
-            } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
-
-                fn from_hex(n: u8) -> Option<u8> {
-                    match n {
-                        b'0'..=b'9' => Some(n - b'0'),
-                        b'A'..=b'F' => Some(10 + n - b'A'),
-                        b'a'..=b'f' => Some(10 + n - b'a'),
-                        _ => None,
-                    }
-                }
-
-                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
-                } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
-                }
-            } else {
-                idx += 1;
-            }
+            idx += decode_escape(&data, idx, &mut output);
         } else if byte == &b'\r' && data.get(idx + 1) == Some(&b'\n') {
+            output.extend_from_slice(b"\r\n");
             idx += 2;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            output.extend_from_slice(&REPLACEMENT);
+            idx += 1;
         }
     }
 
-    data
+    output
 }
 
-pub fn decode_header_qp(mut data: Vec<u8>) -> Vec<u8> {
+pub fn decode_header_qp(data: Vec<u8>) -> Vec<u8> {
+    let mut output = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx).copied() {
         if byte == b'_' {
-            data[idx] = 0x20;
+            output.push(0x20);
             idx += 1;
         } else if byte == b'=' {
-            if data.get(idx + 1) == Some(&b'\r') && data.get(idx + 2) == Some(&b'\n') {
-                data.drain(idx..idx + 3);
-            } else if data.len() > idx + 2 {
-                let first = data.remove(idx + 1);
-                let second = data.remove(idx + 1);
-
-                fn from_hex(n: u8) -> Option<u8> {
-                    match n {
-                        b'0'..=b'9' => Some(n - b'0'),
-                        b'A'..=b'F' => Some(10 + n - b'A'),
-                        b'a'..=b'f' => Some(10 + n - b'a'),
-                        _ => None,
-                    }
-                }
-
-                if let (Some(first), Some(second)) = (from_hex(first), from_hex(second)) {
-                    data[idx] = first * 16 + second;
-                    idx += 1;
-                } else {
-                    data[idx] = 189;
-                    data.insert(idx, 191);
-                    data.insert(idx, 239);
-                    idx += 3;
-                }
-            } else {
-                idx += 1;
-            }
+            idx += decode_escape(&data, idx, &mut output);
         } else if byte >= 0x20 && byte <= 0x7E {
+            output.push(byte);
             idx += 1;
         } else {
-            data[idx] = 189;
-            data.insert(idx, 191);
-            data.insert(idx, 239);
-            idx += 3;
+            output.extend_from_slice(&REPLACEMENT);
+            idx += 1;
         }
     }
 
-    data
+    output
 }
 
 #[cfg(test)]
-- 
2.43.0


From b97cfde8e39a943e49c4bdcdf1753905e3661d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 13/19] fix: ignore white space at the end of quoted-printable
 lines

---
 .../src/parsing/mime/quoted_printables.rs     | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/mime/quoted_printables.rs b/email-parser/src/parsing/mime/quoted_printables.rs
index 5c02c87..18bb2b6 100644
--- a/email-parser/src/parsing/mime/quoted_printables.rs
+++ b/email-parser/src/parsing/mime/quoted_printables.rs
@@ -1,3 +1,5 @@
+use crate::prelude::*;
+
 // Second rule of the encoding
 fn litteral_repr_possible(c: &u8) -> bool {
     (c >= &33 && c <= &60) || (c >= &62 && c <= &126)
@@ -89,17 +91,38 @@ fn decode_escape(data: &[u8], idx: usize, output: &mut Vec<u8>) -> usize {
     }
 }
 
+fn wsp_len(data: &[u8]) -> usize {
+    data.iter().take_while(|byte| is_wsp(**byte)).count()
+}
+
+fn end_of_line(data: &[u8]) -> bool {
+    data.is_empty() || data.starts_with(b"\r\n")
+}
+
 // The output is written in another vector because removing or inserting bytes in place would have a quadratic cost.
 pub fn decode_qp(data: Vec<u8>) -> Vec<u8> {
     let mut output = Vec::with_capacity(data.len());
     let mut idx = 0;
 
     while let Some(byte) = data.get(idx) {
-        if litteral_repr_possible(byte) || byte == &b' ' || byte == &b'\t' {
+        if litteral_repr_possible(byte) {
             output.push(*byte);
             idx += 1;
+        } else if is_wsp(*byte) {
+            // White spaces at the end of a line have been added during the transport
+            let len = wsp_len(&data[idx..]);
+            if !end_of_line(&data[idx + len..]) {
+                output.extend_from_slice(&data[idx..idx + len]);
+            }
+            idx += len;
         } else if byte == &b'=' {
-            idx += decode_escape(&data, idx, &mut output);
+            let len = wsp_len(&data[idx + 1..]);
+            if len > 0 && data[idx + 1 + len..].starts_with(b"\r\n") {
+                // Soft line break
+                idx += 1 + len + 2;
+            } else {
+                idx += decode_escape(&data, idx, &mut output);
+            }
         } else if byte == &b'\r' && data.get(idx + 1) == Some(&b'\n') {
             output.extend_from_slice(b"\r\n");
             idx += 2;
-- 
2.43.0


From 91e3895ff393750d705627dc5b806517ff50f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 14/19] fix: make sender and content-disposition features
 independent of the others

---
 email-parser/src/email.rs               | 12 ++++--------
 email-parser/src/parsing/mime/entity.rs |  5 +++--
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/email-parser/src/email.rs b/email-parser/src/email.rs
index 164e667..9a00589 100644
--- a/email-parser/src/email.rs
+++ b/email-parser/src/email.rs
@@ -39,7 +39,7 @@ pub struct Email<'a> {
     #[cfg(feature = "sender")]
     /// The mailbox of the agent responsible for the actual transmission of the message.\
     /// Do not mix up with the [from field](#structfield.from) that contains the list of authors.\
-    /// When there is only one author, this field can be omitted, and its value is inferred. Otherwise, an explicit value is required.
+    /// When there is only one author, this field can be omitted, and its value is inferred (this requires the `from` feature). Otherwise, an explicit value is required.
     pub sender: Mailbox<'a>,
 
     #[cfg(feature = "subject")]
@@ -311,13 +311,9 @@ impl<'a> Email<'a> {
         #[cfg(feature = "sender")]
         let sender = match sender {
             Some(sender) => sender,
-            None => {
-                if from.len() == 1 {
-                    from[0].clone()
-                } else {
-                    return Err(Error::MissingHeader("Sender"));
-                }
-            }
+            #[cfg(feature = "from")]
+            None if from.len() == 1 => from[0].clone(),
+            None => return Err(Error::MissingHeader("Sender")),
         };
 
         #[cfg(feature = "mime")]
diff --git a/email-parser/src/parsing/mime/entity.rs b/email-parser/src/parsing/mime/entity.rs
index a2716af..528f4ee 100644
--- a/email-parser/src/parsing/mime/entity.rs
+++ b/email-parser/src/parsing/mime/entity.rs
@@ -13,7 +13,7 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         additional_headers,
         id,
         description,
-        disposition,
+        _disposition,
     ) = match input {
         Cow::Borrowed(ref mut input) => {
             let (len, r) = header_part(input)?;
@@ -34,7 +34,8 @@ pub fn raw_entity(mut input: Cow<[u8]>) -> Result<RawEntity, Error> {
         description,
         id,
         parameters,
-        disposition,
+        #[cfg(feature = "content-disposition")]
+        disposition: _disposition,
         value,
         additional_headers,
     })
-- 
2.43.0


From 4eaf9a4045d0486c388c4fa8187581552f4a84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 15/19] fix: compare entire tokens to known content types and
 dispositions

---
 email-parser/src/parsing/mime/mime_fields.rs | 33 ++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index e78c671..df2697c 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -21,6 +21,21 @@ fn token(input: &[u8]) -> Res<&str> {
     })
 }
 
+/// Matches an entire token. A longer token only starting with the expected value does not match.
+#[inline]
+fn token_no_case<'a>(
+    input: &'a [u8],
+    expected: &'static [u8],
+    expected2: &'static [u8],
+    error_message: &'static str,
+) -> Res<'a, ()> {
+    let (input, ()) = tag_no_case(input, expected, expected2, error_message)?;
+    if token(input).is_ok() {
+        return Err(Error::Explicit(error_message));
+    }
+    Ok((input, ()))
+}
+
 pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     let (input, ()) = tag_no_case(
         input,
@@ -157,7 +172,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
         input,
         &mut [
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"text",
                     b"TEXT",
@@ -166,7 +181,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Text))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"multipart",
                     b"MULTIPART",
@@ -175,11 +190,11 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Multipart))
             },
             |input| {
-                tag_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
+                token_no_case(input, b"application", b"APPLICATION", "TAG NO CASE ERROR: In a content type header, `application` type does not match.")
                     .map(|(i, ())| (i, ContentType::Application))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"image",
                     b"IMAGE",
@@ -188,7 +203,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Image))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"video",
                     b"VIDEO",
@@ -197,7 +212,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Video))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"audio",
                     b"AUDIO",
@@ -206,7 +221,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
                 .map(|(i, ())| (i, ContentType::Audio))
             },
             |input| {
-                tag_no_case(
+                token_no_case(
                     input,
                     b"message",
                     b"MESSAGE",
@@ -259,10 +274,10 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         input,
         &mut [
             |input| {
-                tag_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
+                token_no_case(input, b"inline", b"INLINE", "TAG NO CASE ERROR: In a content disposition header, `inline` disposition does not match.").map(|(i, ())| (i, DispositionType::Inline))
             },
             |input| {
-                tag_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
+                token_no_case(input, b"attachment", b"ATTACHMENT", "TAG NO CASE ERROR: In a content disposition header, `attachment` disposition does not match.")
                     .map(|(i, ())| (i, DispositionType::Attachment))
             },
             |input| {
-- 
2.43.0


From b9a48f37bad095b279759462dcca8433d1a51dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 16/19] fix: accept any comments and folding at the end of MIME
 headers

---
 email-parser/src/parsing/mime/mime_fields.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index df2697c..1c4b0aa 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -3,17 +3,6 @@ use crate::prelude::*;
 use std::borrow::Cow;
 use std::collections::HashMap;
 
-#[inline]
-fn ignore_inline_cfws(input: &[u8]) -> Res<()> {
-    triplet(
-        input,
-        |input| take_while(input, is_wsp),
-        |input| Ok(optional(input, comment)),
-        |input| take_while(input, is_wsp),
-    )
-    .map(|(i, _)| (i, ()))
-}
-
 #[inline]
 fn token(input: &[u8]) -> Res<&str> {
     take_while1(input, |c| {
@@ -69,7 +58,7 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     )?;
     let (input, d2) = u8_number(input)?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cfws) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -249,7 +238,7 @@ pub fn content_type(input: &[u8]) -> Res<(ContentType, Cow<str>, HashMap<Cow<str
     let (input, parameters_vec) = many(input, parameter)?;
     let parameters = super::percent_encoding::collect_parameters(parameters_vec)?;
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, _cfws) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -367,7 +356,7 @@ pub fn content_disposition(input: &[u8]) -> Res<Disposition> {
         disposition.filename = Some(filename);
     }
 
-    let (input, ()) = ignore_inline_cfws(input)?;
+    let (input, _cfws) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b"\r\n",
@@ -418,7 +407,7 @@ pub fn content_transfer_encoding(input: &[u8]) -> Res<ContentTransferEncoding> {
         ][..],
     )?;
 
-    let (input, _cwfs) = ignore_inline_cfws(input)?;
+    let (input, _cfws) = optional(input, cfws);
     let (input, ()) = tag(input, b"\r\n", "TAG ERROR: A header (`Content-Transfer-Encoding` in this case) must end with a CRLF sequence.")?;
 
     Ok((input, encoding))
-- 
2.43.0


From e2f66fdcd65eb14497d40e1cf20cb6a5982aac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 17/19] fix: accept comments inside of the MIME version

---
 email-parser/src/parsing/mime/mime_fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/email-parser/src/parsing/mime/mime_fields.rs b/email-parser/src/parsing/mime/mime_fields.rs
index 1c4b0aa..15a2359 100644
--- a/email-parser/src/parsing/mime/mime_fields.rs
+++ b/email-parser/src/parsing/mime/mime_fields.rs
@@ -51,11 +51,13 @@ pub fn mime_version(input: &[u8]) -> Res<(u8, u8)> {
     }
 
     let (input, d1) = u8_number(input)?;
+    let (input, _) = optional(input, cfws);
     let (input, ()) = tag(
         input,
         b".",
         "TAG ERROR: A MIME version's major version number must be followed by a `.`.",
     )?;
+    let (input, _) = optional(input, cfws);
     let (input, d2) = u8_number(input)?;
 
     let (input, _cfws) = optional(input, cfws);
-- 
2.43.0


From 78fc512670a3b3d4d8ce95efb35f477e8aa71a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 18/19] fix: accept comments around encoded words in phrases

---
 email-parser/src/parsing/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/email-parser/src/parsing/common.rs b/email-parser/src/parsing/common.rs
index cc2544b..b971f29 100644
--- a/email-parser/src/parsing/common.rs
+++ b/email-parser/src/parsing/common.rs
@@ -82,8 +82,10 @@ pub fn phrase(input: &[u8]) -> Result<(&[u8], Vec<Cow<str>>), Error> {
             input,
             &mut [
                 (|i| {
-                    let (i, _) = optional(i, fws);
-                    crate::parsing::mime::encoded_headers::encoded_word(i)
+                    let (i, _) = optional(i, cfws);
+                    let (i, word) = crate::parsing::mime::encoded_headers::encoded_word(i)?;
+                    let (i, _) = optional(i, cfws);
+                    Ok((i, word))
                 }),
                 (|i| crate::parsing::common::word(i)),
             ][..],
-- 
2.43.0


From 96bd0a3da36707f75f27d3db682e6f3edaed749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 19/19] fix: decode characters split between sections of a
 parameter

---
 .../src/parsing/mime/percent_encoding.rs      | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/email-parser/src/parsing/mime/percent_encoding.rs b/email-parser/src/parsing/mime/percent_encoding.rs
index c9acf45..07236c7 100644
--- a/email-parser/src/parsing/mime/percent_encoding.rs
+++ b/email-parser/src/parsing/mime/percent_encoding.rs
@@ -112,6 +112,8 @@ pub fn collect_parameters<'a>(
     }
     for (name, values) in complex_parameters.iter_mut() {
         if let Some((encoded, value)) = values.remove(&0) {
+            // A character can be split between sections, so adjacent encoded sections are decoded together
+            let mut pending = Vec::new();
             let (mut value, charset, _language) = if encoded {
                 match value {
                     Cow::Borrowed(value) => {
@@ -128,8 +130,9 @@ pub fn collect_parameters<'a>(
                             b"'",
                             "TAG ERROR: In a parameter list, a language must be followed by a `'`.",
                         )?;
+                        pending = value.to_vec();
                         (
-                            Cow::Owned(decode_parameter(value.to_vec(), charset.clone())?),
+                            empty_string(),
                             Some(charset),
                             Some(Cow::Borrowed(language)),
                         )
@@ -148,8 +151,9 @@ pub fn collect_parameters<'a>(
                             b"'",
                             "TAG ERROR: In a parameter list, a language must be followed by a `'`.",
                         )?;
+                        pending = value.to_vec();
                         (
-                            Cow::Owned(decode_parameter(value.to_vec(), charset.clone())?),
+                            empty_string(),
                             Some(Cow::Owned(charset.into_owned())),
                             Some(Cow::Owned(language.to_owned())),
                         )
@@ -166,17 +170,19 @@ pub fn collect_parameters<'a>(
             {
                 idx += 1;
                 if encoded && charset.is_some() {
-                    add_string(
-                        &mut value,
-                        Cow::Owned(decode_parameter(
-                            new_value.into_owned().into_bytes(),
-                            charset.clone().unwrap(),
-                        )?),
-                    );
+                    pending.extend_from_slice(new_value.as_bytes());
                 } else {
+                    if let Some(charset) = charset.clone() {
+                        let decoded = decode_parameter(std::mem::take(&mut pending), charset)?;
+                        add_string(&mut value, Cow::Owned(decoded));
+                    }
                     add_string(&mut value, new_value);
                 }
             }
+            if let Some(charset) = charset {
+                let decoded = decode_parameter(pending, charset)?;
+                add_string(&mut value, Cow::Owned(decoded));
+            }
 
             parameters.insert(Cow::Owned(name.clone().into_owned()), value);
         }
-- 
2.43.0

