From c7212a53f7dd028c7451e9e68732dc2de5ac518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 01/29] fix: do not panic on a date-and-or-time starting with a
 multi-byte character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

DateAndOrTime::from_str sliced the first byte of the value, so for example
BDAY:é made parse() panic.
---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From 7140dd2150959f6f83bd7f139bc134a3995984ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 02/29] fix: keep the sign of negative UTC offsets of less than
 one hour

TZ;VALUE=utc-offset:-0030 was written as +0030.
---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0b4a675..0e259b6 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -759,7 +759,8 @@ impl From<UtcOffset> for UtcOffsetProperty {
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
+        // The hours are zero for a negative offset of less than one hour
+        let sign = if self.value.is_negative() { '-' } else { '+' };
         let h = h.abs();
         let m = m.abs();
         let h = if h < 10 {
-- 
2.43.0


From c9c6ddade2404b6c72a142501bba07ff077b9828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 03/29] fix: write the T prefix of a standalone time

DateAndOrTime::Time was written without the mandatory T prefix, so the time
of a BDAY:T102200 became 102200+0000.
---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 0e259b6..ca1148c 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -528,8 +528,9 @@ impl fmt::Display for DateAndOrTime {
                 "{}",
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
+            // A standalone time must be preceded by a `T`
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
-- 
2.43.0


From bf18351a53119c7c8765e398a7d1ff667f41e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 04/29] fix: read a --MM date as a month

BDAY:--04 (April, RFC 6350 section 4.3.1) was read as the time 00:00:04.
---
 src/helper.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index b99932b..e7cc592 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -160,8 +160,15 @@ pub fn parse_date(value: &str) -> Result<Date> {
             *val = "01";
         }
 
-        let value = parts.join("");
-        do_parse_date(&value)
+        let mut date = parts.join("");
+        // Got a --MM format need to use 01 for the day
+        if value.len() == 4
+            && value.starts_with("--")
+            && !value.starts_with("---")
+        {
+            date.push_str("01");
+        }
+        do_parse_date(&date)
     // Got a YYYY-MM format need to use 01 for the day
     } else if value.len() == 7 {
         let value = format!("{}-01", value);
-- 
2.43.0


From 81e34fde3be9d75ef96c9d541183b81ddc772218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 05/29] fix: escape carriage returns in text values

A text containing CR LF or CR was written with a raw carriage return, which
the parser rejects as a control character.
---
 src/lib.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..29378b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,18 +140,17 @@ pub fn iter(source: &str, strict: bool) -> VcardIterator<'_> {
 
 /// Helper for escaping values.
 pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
-    use aho_corasick::AhoCorasick;
-    if semi_colons {
-        let patterns = &["\\", "\n", ",", ";"];
-        let replace_with = &["\\\\", "\\n", "\\,", "\\;"];
-        let ac = AhoCorasick::new(patterns).unwrap();
-        ac.replace_all(value, replace_with)
-    } else {
-        let patterns = &["\\", "\n", ","];
-        let replace_with = &["\\\\", "\\n", "\\,"];
-        let ac = AhoCorasick::new(patterns).unwrap();
-        ac.replace_all(value, replace_with)
-    }
+    use aho_corasick::{AhoCorasick, MatchKind};
+    // Any style of line break is written as an escaped newline, a
+    // carriage return can't appear in a content line
+    let patterns = &["\\", "\r\n", "\n", "\r", ",", ";"];
+    let replace_with = &["\\\\", "\\n", "\\n", "\\n", "\\,", "\\;"];
+    let len = if semi_colons { 6 } else { 5 };
+    let ac = AhoCorasick::builder()
+        .match_kind(MatchKind::LeftmostFirst)
+        .build(&patterns[..len])
+        .unwrap();
+    ac.replace_all(value, &replace_with[..len])
 }
 
 pub(crate) fn unescape_value(value: &str) -> String {
-- 
2.43.0


From 94f328d0f1d853eac8b4ec7e5bda458bfb2d417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 06/29] fix: join folded lines before interpreting content
 lines

A line may be folded anywhere, and the writer does fold inside parameter
names and escape sequences, but folds were only understood between the
tokens of a value, so the library could not read its own output; for
example when a line was folded inside MEDIATYPE or between the two
characters of an escape sequence.
---
 src/lib.rs    | 24 ++++++++++++++++++++++--
 src/parser.rs | 43 +++++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 29378b3..c0d21c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,6 +94,8 @@
 //!   carriage return as optional.
 //!
 
+use std::borrow::Cow;
+
 mod builder;
 mod date_time;
 mod error;
@@ -153,10 +155,28 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     ac.replace_all(value, &replace_with[..len])
 }
 
+/// Join folded lines.
+///
+/// This must happen before the content lines are interpreted as a line
+/// may be folded anywhere; including inside a name or an escape sequence.
+pub(crate) fn unfold(source: &str) -> Cow<'_, str> {
+    use aho_corasick::{AhoCorasick, MatchKind};
+    let patterns = &["\r\n ", "\r\n\t", "\n ", "\n\t"];
+    let ac = AhoCorasick::builder()
+        .match_kind(MatchKind::LeftmostFirst)
+        .build(patterns)
+        .unwrap();
+    if ac.is_match(source) {
+        Cow::Owned(ac.replace_all(source, &[""; 4]))
+    } else {
+        Cow::Borrowed(source)
+    }
+}
+
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\\n", "\\N", "\\,"];
+    let replace_with = &["\n", "\n", ","];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..7a9fd88 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, unescape_value, unfold,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -58,9 +58,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -89,16 +86,30 @@ pub(crate) enum Token {
     Text,
 }
 
+#[cfg(feature = "zeroize")]
+impl Drop for VcardParser<'_> {
+    fn drop(&mut self) {
+        use zeroize::Zeroize;
+        if let Cow::Owned(source) = &mut self.source {
+            source.zeroize();
+        }
+    }
+}
+
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    /// Source with all the folded lines joined.
+    pub(crate) source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            strict,
+            source: unfold(source),
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +137,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
@@ -431,7 +442,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<(String, LexResult<Token>, bool)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut quoted = false;
-        let mut is_folded_or_escaped = false;
+        let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
             let span = lex.span();
@@ -442,12 +453,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-                is_folded_or_escaped = true;
+                is_escaped = true;
             }
 
             let completed = if first_range.is_some() && quoted {
@@ -490,7 +500,7 @@ impl<'s> VcardParser<'s> {
                     };
                 }
 
-                let value = if is_folded_or_escaped {
+                let value = if is_escaped {
                     unescape_value(value)
                 } else {
                     value.to_string()
@@ -1015,8 +1025,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1036,9 +1045,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
-- 
2.43.0


From 15c576c82a07c4f71610fe6efe53e0137fb66f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 07/29] fix: split structured values before unescaping them

N, ORG, CATEGORIES, ADR and GENDER were split after their escape sequences
had been decoded, so an escaped delimiter inside of a component was taken
for a delimiter: ORG:a\;b;c had three components and writing and reading
back a category containing a comma gave two categories.
---
 src/lib.rs      | 27 ++++++++++++++++++
 src/parser.rs   | 75 ++++++++++++-------------------------------------
 src/property.rs | 21 +++++++-------
 3 files changed, 56 insertions(+), 67 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c0d21c7..25d0552 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -181,6 +181,33 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Helper for unescaping text values.
+pub(crate) fn unescape_text(value: &str) -> Cow<'_, str> {
+    use aho_corasick::AhoCorasick;
+    if !value.contains('\\') {
+        return Cow::Borrowed(value);
+    }
+    let patterns = &["\\\\", "\\n", "\\N", "\\,", "\\;"];
+    let replace_with = &["\\", "\n", "\n", ",", ";"];
+    let ac = AhoCorasick::new(patterns).unwrap();
+    Cow::Owned(ac.replace_all(value, replace_with))
+}
+
+/// Helper for splitting an escaped value into at most `n` items using
+/// the delimiters that are not escaped, the items are not unescaped.
+pub(crate) fn splitn_escaped(
+    value: &str,
+    n: usize,
+    delimiter: char,
+) -> impl Iterator<Item = &str> {
+    let mut escaped = false;
+    value.splitn(n, move |c: char| {
+        let found = c == delimiter && !escaped;
+        escaped = c == '\\' && !escaped;
+        found
+    })
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index 7a9fd88..380de83 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,8 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value, unfold,
+    name::*, parameter::*, property::*, splitn_escaped, unescape_text,
+    unescape_value, unfold,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -522,7 +523,8 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
+        let raw_value = self.parse_property_value(lex)?;
+        let value = unescape_text(raw_value);
 
         let upper_name = name.to_uppercase();
 
@@ -575,10 +577,8 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = splitn_escaped(raw_value, usize::MAX, ';')
+                    .map(|s| unescape_text(s).into_owned())
                     .collect::<Vec<_>>();
                 card.name = Some(TextListProperty {
                     value,
@@ -640,7 +640,7 @@ impl<'s> VcardParser<'s> {
                 if card.gender.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value: Gender = value.as_ref().parse()?;
+                let value: Gender = raw_value.parse()?;
                 card.gender = Some(GenderProperty {
                     value,
                     parameters,
@@ -651,7 +651,7 @@ impl<'s> VcardParser<'s> {
             // Delivery Addressing
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.3
             ADR => {
-                let value: DeliveryAddress = value.as_ref().parse()?;
+                let value: DeliveryAddress = raw_value.parse()?;
                 card.address.push(AddressProperty {
                     value,
                     parameters,
@@ -773,10 +773,8 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
+                let value = splitn_escaped(raw_value, usize::MAX, ';')
+                    .map(|s| unescape_text(s).into_owned())
                     .collect::<Vec<_>>();
                 card.org.push(TextListProperty {
                     value,
@@ -805,10 +803,8 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
+                let value = splitn_escaped(raw_value, usize::MAX, ',')
+                    .map(|s| unescape_text(s).into_owned())
                     .collect::<Vec<_>>();
                 card.categories.push(TextListProperty {
                     value,
@@ -1002,17 +998,15 @@ impl<'s> VcardParser<'s> {
         Ok(())
     }
 
-    /// Get the slice for the property value.
+    /// Get the slice for the property value, escape sequences
+    /// are preserved.
     fn parse_property_value<'a>(
         &self,
-        lex: &'a mut Lexer<'_, Token>,
-    ) -> Result<Cow<'a, str>> {
+        lex: &mut Lexer<'a, Token>,
+    ) -> Result<&'a str> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
 
-        let mut needs_transform = false;
-        let mut tokens = Vec::new();
-
         while let Some(token) = lex.next() {
             let span = lex.span();
             if first_range.is_none() {
@@ -1025,48 +1019,15 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::EscapedSemiColon)
-                || token == Ok(Token::EscapedComma)
-                || token == Ok(Token::EscapedNewLine)
-                || token == Ok(Token::EscapedBackSlash)
-            {
-                needs_transform = true;
-            }
-
             if token == Ok(Token::NewLine) {
                 last_range = Some(span);
                 break;
             }
-
-            tokens.push((token, span));
         }
 
         if let (Some(first), Some(last)) = (first_range, last_range) {
-            if needs_transform {
-                let mut value = String::new();
-                for (token, span) in tokens {
-                    if token == Ok(Token::EscapedComma) {
-                        value.push(',');
-                        continue;
-                    } else if token == Ok(Token::EscapedSemiColon) {
-                        value.push(';');
-                        continue;
-                    } else if token == Ok(Token::EscapedNewLine) {
-                        value.push('\n');
-                        continue;
-                    } else if token == Ok(Token::EscapedBackSlash) {
-                        value.push('\\');
-                        continue;
-                    }
-
-                    let source = lex.source();
-                    value.push_str(&source[span]);
-                }
-                Ok(Cow::Owned(value))
-            } else {
-                let source = lex.source();
-                Ok(Cow::Borrowed(&source[first.start..last.start]))
-            }
+            let source = lex.source();
+            Ok(&source[first.start..last.start])
         } else {
             Err(Error::InvalidPropertyValue)
         }
diff --git a/src/property.rs b/src/property.rs
index ca1148c..66a130d 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    splitn_escaped, unescape_text,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,7 +136,7 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
+        let mut it = splitn_escaped(s, 7, ';');
         let po_box = it
             .next()
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
@@ -159,37 +160,37 @@ impl FromStr for DeliveryAddress {
             .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
 
         let po_box = if !po_box.is_empty() {
-            Some(po_box.to_owned())
+            Some(unescape_text(po_box).into_owned())
         } else {
             None
         };
         let extended_address = if !extended_address.is_empty() {
-            Some(extended_address.to_owned())
+            Some(unescape_text(extended_address).into_owned())
         } else {
             None
         };
         let street_address = if !street_address.is_empty() {
-            Some(street_address.to_owned())
+            Some(unescape_text(street_address).into_owned())
         } else {
             None
         };
         let locality = if !locality.is_empty() {
-            Some(locality.to_owned())
+            Some(unescape_text(locality).into_owned())
         } else {
             None
         };
         let region = if !region.is_empty() {
-            Some(region.to_owned())
+            Some(unescape_text(region).into_owned())
         } else {
             None
         };
         let postal_code = if !postal_code.is_empty() {
-            Some(postal_code.to_owned())
+            Some(unescape_text(postal_code).into_owned())
         } else {
             None
         };
         let country_name = if !country_name.is_empty() {
-            Some(country_name.to_owned())
+            Some(unescape_text(country_name).into_owned())
         } else {
             None
         };
@@ -1155,7 +1156,7 @@ impl FromStr for Gender {
             });
         }
 
-        let mut it = s.splitn(2, ';');
+        let mut it = splitn_escaped(s, 2, ';');
         let sex = it.next().ok_or(Error::NoSex)?;
         let sex: Sex = sex.parse()?;
         let mut gender = Gender {
@@ -1163,7 +1164,7 @@ impl FromStr for Gender {
             identity: None,
         };
         if let Some(identity) = it.next() {
-            gender.identity = Some(identity.to_string());
+            gender.identity = Some(unescape_text(identity).into_owned());
         }
 
         Ok(gender)
-- 
2.43.0


From f5284da03bc416e7303159441655a31d06416399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 08/29] fix: read parameter values as they are written

The tokens of a parameter value were interpreted, so a value containing text
like END:VCARD swallowed the delimiter after it, an unterminated value
continued on the next line (NOTE;ALTID=foo followed by TEL:1 lost a property),
an empty quoted value was read as a double quote, a double quote was accepted
inside an unquoted value, escaped backslashes and semi-colons were not
decoded and an escaped comma still separated list items.
---
 src/lib.rs    |   8 ---
 src/parser.rs | 157 ++++++++++++++++++++++++--------------------------
 2 files changed, 74 insertions(+), 91 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 25d0552..a1bdfda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,14 +173,6 @@ pub(crate) fn unfold(source: &str) -> Cow<'_, str> {
     }
 }
 
-pub(crate) fn unescape_value(value: &str) -> String {
-    use aho_corasick::AhoCorasick;
-    let patterns = &["\\n", "\\N", "\\,"];
-    let replace_with = &["\n", "\n", ","];
-    let ac = AhoCorasick::new(patterns).unwrap();
-    ac.replace_all(value, replace_with)
-}
-
 /// Helper for unescaping text values.
 pub(crate) fn unescape_text(value: &str) -> Cow<'_, str> {
     use aho_corasick::AhoCorasick;
diff --git a/src/parser.rs b/src/parser.rs
index 380de83..8d902a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -12,7 +12,7 @@ use mime::Mime;
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
     name::*, parameter::*, property::*, splitn_escaped, unescape_text,
-    unescape_value, unfold,
+    unfold,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -241,11 +241,12 @@ impl<'s> VcardParser<'s> {
     fn add_extension_parameter(
         &self,
         parameter_name: &str,
-        value: String,
+        raw_value: &str,
         params: &mut Parameters,
     ) {
-        let values =
-            value.split(',').map(|s| s.to_owned()).collect::<Vec<_>>();
+        let values = splitn_escaped(raw_value, usize::MAX, ',')
+            .map(|s| unescape_text(s).into_owned())
+            .collect::<Vec<_>>();
         let x_param = (parameter_name.to_owned(), values);
         if let Some(extensions) = params.extensions.as_mut() {
             extensions.push(x_param);
@@ -280,13 +281,14 @@ impl<'s> VcardParser<'s> {
                     &[Token::ValueDelimiter],
                 )?;
 
-                let (value, next_token, quoted) =
+                let (raw_value, next_token, quoted) =
                     self.parse_parameter_value(lex)?;
+                let value = unescape_text(raw_value).into_owned();
 
                 if token == Ok(Token::ExtensionName) {
                     self.add_extension_parameter(
                         parameter_name,
-                        value,
+                        raw_value,
                         &mut params,
                     );
                 } else {
@@ -337,8 +339,11 @@ impl<'s> VcardParser<'s> {
                             let mut type_params: Vec<TypeParameter> =
                                 Vec::new();
 
-                            for val in value.split(',') {
-                                let param: TypeParameter = val.parse()?;
+                            for val in
+                                splitn_escaped(raw_value, usize::MAX, ',')
+                            {
+                                let param: TypeParameter =
+                                    unescape_text(val).parse()?;
                                 type_params.push(param);
                             }
 
@@ -355,10 +360,10 @@ impl<'s> VcardParser<'s> {
                             params.calscale = Some(value);
                         }
                         SORT_AS => {
-                            let sort_values = value
-                                .split(',')
-                                .map(|s| s.to_string())
-                                .collect::<Vec<_>>();
+                            let sort_values =
+                                splitn_escaped(raw_value, usize::MAX, ',')
+                                    .map(|s| unescape_text(s).into_owned())
+                                    .collect::<Vec<_>>();
                             params.sort_as = Some(sort_values);
                         }
                         GEO => {
@@ -372,9 +377,12 @@ impl<'s> VcardParser<'s> {
                         }
                         TZ => {
                             if quoted {
-                                let value = value.parse()?;
-                                params.timezone =
-                                    Some(TimeZoneParameter::Uri(value));
+                                params.timezone = Some(match value.parse() {
+                                    Ok(value) => {
+                                        TimeZoneParameter::Uri(value)
+                                    }
+                                    Err(_) => TimeZoneParameter::Text(value),
+                                });
                             } else {
                                 match parse_utc_offset(&value) {
                                     Ok(offset) => {
@@ -410,7 +418,7 @@ impl<'s> VcardParser<'s> {
                         ENCODING => {
                             self.add_extension_parameter(
                                 parameter_name,
-                                value,
+                                raw_value,
                                 &mut params,
                             );
                         }
@@ -436,81 +444,64 @@ impl<'s> VcardParser<'s> {
         Ok(params)
     }
 
-    /// Parse the raw value for a property parameter.
-    fn parse_parameter_value(
+    /// Parse the raw value for a property parameter, escape sequences
+    /// are preserved.
+    ///
+    /// The value is not tokenized as it may contain text which looks
+    /// like some other token.
+    fn parse_parameter_value<'a>(
         &self,
-        lex: &mut Lexer<'_, Token>,
-    ) -> Result<(String, LexResult<Token>, bool)> {
-        let mut first_range: Option<Range<usize>> = None;
-        let mut quoted = false;
-        let mut is_escaped = false;
-
-        while let Some(mut token) = lex.next() {
-            let span = lex.span();
-
-            if token == Ok(Token::Control) {
-                return Err(Error::ControlCharacter(escape_control(
-                    lex.slice(),
-                )));
-            }
-
-            if token == Ok(Token::EscapedNewLine)
-                || token == Ok(Token::EscapedComma)
-                || token == Ok(Token::EscapedBackSlash)
-            {
-                is_escaped = true;
-            }
-
-            let completed = if first_range.is_some() && quoted {
-                token == Ok(Token::DoubleQuote)
-            } else {
-                token == Ok(Token::PropertyDelimiter)
-                    || token == Ok(Token::ParameterDelimiter)
-                //|| token == Token::ParameterKey
-            };
-
-            if first_range.is_none() {
-                first_range = Some(span.clone());
-                if token == Ok(Token::DoubleQuote) {
-                    quoted = true;
+        lex: &mut Lexer<'a, Token>,
+    ) -> Result<(&'a str, LexResult<Token>, bool)> {
+        let source = lex.remainder();
+        let quoted = source.starts_with('"');
+        let begin = if quoted { 1 } else { 0 };
+
+        let mut end = None;
+        let mut escaped = false;
+        for (pos, c) in source[begin..].char_indices() {
+            let completed = match c {
+                '"' => {
+                    if !quoted {
+                        return Err(Error::DelimiterExpected);
+                    }
+                    true
                 }
-            }
-
-            if completed {
-                let source = lex.source();
-                let begin = first_range.unwrap().start;
-                let end = span.start;
-                let mut value = &source[begin..end];
-
-                // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
-                    value = &source[begin + 1..end];
+                // A parameter value can't span multiple lines
+                '\n' => return Err(Error::DelimiterExpected),
+                '\r' if source[begin + pos..].starts_with("\r\n") => {
+                    return Err(Error::DelimiterExpected);
                 }
-
-                // Must consumer the next token
-                if quoted {
-                    token = if let Some(Ok(token)) = lex.next() {
-                        if token != Token::PropertyDelimiter
-                            && token != Token::ParameterDelimiter
-                        {
-                            return Err(Error::DelimiterExpected);
-                        }
-                        Ok(token)
-                    } else {
-                        return Err(Error::TokenExpected);
-                    };
+                '\t' => false,
+                c if c.is_ascii_control() => {
+                    return Err(Error::ControlCharacter(escape_control(
+                        &c.to_string(),
+                    )));
                 }
+                ':' => !quoted,
+                ';' => !quoted && !escaped,
+                _ => false,
+            };
+            if completed {
+                end = Some(begin + pos);
+                break;
+            }
+            escaped = c == '\\' && !escaped;
+        }
 
-                let value = if is_escaped {
-                    unescape_value(value)
-                } else {
-                    value.to_string()
-                };
+        let end = end.ok_or(Error::TokenExpected)?;
+        lex.bump(if quoted { end + 1 } else { end });
 
-                return Ok((value, token, quoted));
+        match lex.next() {
+            Some(Ok(token))
+                if token == Token::PropertyDelimiter
+                    || token == Token::ParameterDelimiter =>
+            {
+                Ok((&source[begin..end], Ok(token), quoted))
             }
+            Some(_) => Err(Error::DelimiterExpected),
+            None => Err(Error::TokenExpected),
         }
-        Err(Error::TokenExpected)
     }
 
     /// Parse a property by name.
-- 
2.43.0


From 025f706fc65e73dcaa0a125d07ba66c3e0365a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 09/29] fix: quote and escape parameter values when writing

A LANGUAGE, TYPE, MEDIATYPE, CALSCALE or TZ value with a colon, semi-colon or
comma was written without quotes and backslashes, commas in list items and
newlines (except in LABEL) were not escaped, so the output could not be read
back or even contained another property.
---
 src/parameter.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..a6b993a 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -22,8 +22,8 @@ use zeroize::{Zeroize, ZeroizeOnDrop};
 use mime::Mime;
 
 use crate::{
-    Error, Result, Uri,
-    helper::format_utc_offset,
+    Error, Result, Uri, escape_value,
+    helper::{format_utc_offset, parse_utc_offset},
     name::{HOME, WORK},
 };
 
@@ -562,7 +562,8 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            let language = language.to_string();
+            write!(f, ";{}={}", LANGUAGE, quote_parameter(&language))?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,19 +572,25 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            let types = comma_delimited(types);
+            if types.contains([':', ';', '\\']) {
+                write!(f, ";{}=\"{}\"", TYPE, types)?;
+            } else {
+                write!(f, ";{}={}", TYPE, types)?;
+            }
         }
         if let Some(media_type) = &self.media_type {
-            write!(f, ";{}={}", MEDIATYPE, media_type)?;
+            let media_type = media_type.to_string();
+            write!(f, ";{}={}", MEDIATYPE, quote_parameter(&media_type))?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, quote_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
             write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
@@ -594,7 +601,12 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
-                    write!(f, ";{}={}", TZ, val)?;
+                    // Quote text that would be read as a UTC offset
+                    if parse_utc_offset(val).is_ok() {
+                        write!(f, ";{}=\"{}\"", TZ, val)?;
+                    } else {
+                        write!(f, ";{}={}", TZ, quote_parameter(val))?;
+                    }
                 }
                 TimeZoneParameter::UtcOffset(val) => {
                     write!(f, ";{}=", TZ)?;
@@ -618,14 +630,27 @@ impl fmt::Display for Parameters {
     }
 }
 
+/// Escape the value of a parameter that is not a list; commas do
+/// not need to be escaped as the value is quoted.
 fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+    escape_value(s, false).replace("\\,", ",")
+}
+
+/// Escape the value of a parameter that is not a list and quote
+/// it when necessary.
+fn quote_parameter(s: &str) -> String {
+    let value = escape_parameter(s);
+    if value.contains([':', ';', ',', '\\']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
     let mut value = String::new();
     for (index, item) in items.iter().enumerate() {
-        value.push_str(&item.to_string());
+        value.push_str(&escape_value(&item.to_string(), false));
         if index < items.len() - 1 {
             value.push(',');
         }
-- 
2.43.0


From 7a665a2b535008d50c7c528a31498210044fa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 10/29] fix: escape language values when writing

Without the language-tags feature a LANG or language-tag value is any text but
it was written without escaping, so a newline in it started another property.
---
 src/property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 66a130d..43f7048 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -390,7 +390,9 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
-            Self::Language(val) => write!(f, "{}", val),
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(&val.to_string(), false))
+            }
         }
     }
 }
@@ -423,6 +425,12 @@ pub struct LanguageProperty {
     pub parameters: Option<Parameters>,
 }
 
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(&self.value.to_string(), false))
+    }
+}
+
 #[cfg(not(feature = "language-tags"))]
 impl From<String> for LanguageProperty {
     fn from(value: String) -> Self {
@@ -1259,7 +1267,6 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
-display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
 
-- 
2.43.0


From 63ee207e9da85eb84c399cda2598e33fa0a800ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 11/29] fix: accept TZ and GEO with a group or in lower case

item1.TZ:Europe/Paris, geo:... and ;tz=... were rejected although property and
parameter names are case-insensitive and any property may have a group.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8d902a9..5013b22 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -27,13 +27,14 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:GEO)")]
     Geo,
 
+    #[regex("(?i:[a-z0-9-]+\\.(TZ|GEO))")]
     #[regex(
         "(?i:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
     )]
-- 
2.43.0


From a98796f567bb4d6e38a11bec129ff8747c8c2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 12/29] fix: accept VALUE=text for TZ

Text is the default type of TZ (RFC 6350 section 6.5.1) but naming it
explicitly was rejected as an unsupported value type.
---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5013b22..ad7f248 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -714,6 +714,15 @@ impl<'s> VcardParser<'s> {
                                 },
                             ));
                         }
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         _ => {
                             return Err(Error::UnsupportedValueType(
                                 value_type.to_string(),
-- 
2.43.0


From a509224ce334cd0dd1656cad1ad7bc3b4e22e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 13/29] fix: reject a vCard without END:VCARD

The end of the input was accepted in place of END:VCARD, so a truncated vCard
was parsed as if it was complete.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ad7f248..e965aab 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -170,7 +170,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -192,7 +192,8 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        // Reached EOF without the end of the vCard
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From f3ffc2d01829cb0158a9f9488e0df4f2bd6758ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 14/29] fix: skip the whole line of a property with an error in
 loose mode

When the error was raised before the value had been consumed (an invalid
parameter, a control character or an unknown property name) the rest of the
line was interpreted as the next property, so parse_loose failed or lost
properties instead of ignoring the one with the error.
---
 src/parser.rs | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e965aab..7394e2e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -172,30 +172,28 @@ impl<'s> VcardParser<'s> {
             if first == Ok(Token::End) {
                 return Ok(());
             }
-            if let Ok(Token::Version) = first {
-                return Err(Error::VersionMisplaced);
-            }
-
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
-
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            let is_begin = first == Ok(Token::Begin);
+            if let Err(e) = self.parse_property(lex, first, card) {
+                // Never merge with the next vCard
+                if self.strict || is_begin {
+                    return Err(e);
+                }
+                self.skip_line(lex);
             }
         }
         // Reached EOF without the end of the vCard
         Err(Error::TokenExpected)
     }
 
+    /// Skip the rest of the current line unless it has
+    /// already been consumed.
+    fn skip_line(&self, lex: &mut Lexer<'_, Token>) {
+        if !lex.slice().ends_with('\n') {
+            let source = lex.remainder();
+            lex.bump(source.find('\n').map_or(source.len(), |pos| pos + 1));
+        }
+    }
+
     /// Parse a single property.
     fn parse_property(
         &self,
@@ -203,6 +201,20 @@ impl<'s> VcardParser<'s> {
         token: LexResult<Token>,
         card: &mut Vcard,
     ) -> Result<()> {
+        if let Ok(Token::Version) = token {
+            return Err(Error::VersionMisplaced);
+        }
+
+        self.assert_token(
+            Some(&token),
+            &[
+                Token::PropertyName,
+                Token::ExtensionName,
+                Token::TimeZone,
+                Token::Geo,
+            ],
+        )?;
+
         let mut group: Option<String> = None;
         let mut name = lex.slice();
 
-- 
2.43.0


From cb80d2cc5291c3aefeb546dddb96e3d06738cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 15/29] fix: make the iterator terminate and resume after an
 error

Trailing newlines made the iterator yield an error forever instead of ending
and after a vCard with an error it never advanced, so it was impossible to
ignore vCards that have errors as documented. Now a vCard with an error yields
one error and the iterator resumes with the next BEGIN:VCARD line.
---
 src/iter.rs | 56 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..d4a6b54 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,9 +1,9 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
+    name::BEGIN,
     parser::{Token, VcardParser},
 };
-use std::ops::Range;
 
 /// Iterator for parsing vCards.
 pub struct VcardIterator<'s> {
@@ -21,17 +21,43 @@ impl<'s> VcardIterator<'s> {
     }
 
     /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
+    ///
+    /// Yields the offset to resume from with the result, or nothing when
+    /// there are no more vCards.
+    fn parse_next(&self) -> Option<(Result<Vcard>, usize)> {
         let mut lex = self.parser.lexer();
-        lex.bump(offset);
+        lex.bump(self.offset);
         while let Some(first) = lex.next() {
+            // Allow newlines around vCard definitions
             if first == Ok(Token::NewLine) {
                 continue;
-            } else {
-                return self.parser.parse_one(&mut lex, Some(first));
             }
+
+            let begin = lex.span().start;
+            let result = self.parser.parse_one(&mut lex, Some(first));
+            return Some(match result {
+                Ok((card, span)) => (Ok(card), span.end),
+                Err(e) => (Err(e), self.resync(begin)),
+            });
         }
-        Err(Error::TokenExpected)
+        None
+    }
+
+    /// Find the beginning of the vCard following the one that
+    /// begins at the given offset.
+    fn resync(&self, begin: usize) -> usize {
+        let source = &self.parser.source;
+        let mut offset = begin;
+        while let Some(pos) = source[offset..].find('\n') {
+            offset += pos + 1;
+            if source[offset..]
+                .get(..BEGIN.len())
+                .is_some_and(|line| line.eq_ignore_ascii_case(BEGIN))
+            {
+                return offset;
+            }
+        }
+        source.len()
     }
 }
 
@@ -39,15 +65,15 @@ impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset >= self.parser.source.len() {
-            return None;
-        }
-        match self.parse_next(self.offset) {
-            Ok((card, span)) => {
-                self.offset = span.end;
-                Some(Ok(card))
+        match self.parse_next() {
+            Some((result, offset)) => {
+                self.offset = offset;
+                Some(result)
+            }
+            None => {
+                self.offset = self.parser.source.len();
+                None
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 3e61619d7854db03aec84f4b17bd261cc15e4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 16/29] fix: validate the vCards yielded by the iterator

parse() rejects a vCard without FN, or with MEMBER when it is not a group, but
the iterator and Vcard::try_from accepted it.
---
 src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index d4a6b54..c2ec265 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -36,7 +36,7 @@ impl<'s> VcardIterator<'s> {
             let begin = lex.span().start;
             let result = self.parser.parse_one(&mut lex, Some(first));
             return Some(match result {
-                Ok((card, span)) => (Ok(card), span.end),
+                Ok((card, span)) => (card.validate().map(|_| card), span.end),
                 Err(e) => (Err(e), self.resync(begin)),
             });
         }
-- 
2.43.0


From fdade36bc8d9bea0a0edf4c605bac0562b072f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 17/29] fix: zeroize the group and parameters of BDAY and
 ANNIVERSARY

DateAndOrTimeProperty was the only property that was not zeroized on drop.
---
 src/property.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/property.rs b/src/property.rs
index 43f7048..b762b8f 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -569,6 +569,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -577,6 +578,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
-- 
2.43.0


From 53cfd12c7b5622b92bade4cfe901351f892bad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 18/29] fix: ignore the case of the home and work types

TYPE=HOME and TYPE=WORK, as written by most vCard 3.0 software, were read as
extensions although all the other types are case-insensitive.
---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index a6b993a..739f1c3 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From bf9a766eccd5be06cdeefa994e179d5a5670fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 19/29] fix: find embedded JPEG photos with more than one type
 or extension

Only the first TYPE and the first extension parameter of a PHOTO were
considered, so a photo with TYPE=pref,JPEG or X-ABCROP-RECTANGLE before
ENCODING was ignored.
---
 src/vcard.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..f9a0858 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -301,13 +301,14 @@ impl Vcard {
                 && let Some(params) = &prop.parameters
                 && let (Some(types), Some(extensions)) =
                     (&params.types, &params.extensions)
-                && let (
-                    Some(TypeParameter::Extension(value)),
-                    Some((name, values)),
-                ) = (types.first(), extensions.first())
-                && name.to_uppercase() == "ENCODING"
-                && values.first() == Some(&"b".to_string())
-                && &value.to_uppercase() == "JPEG"
+                && types.iter().any(|value| {
+                    matches!(value, TypeParameter::Extension(value)
+                        if value.to_uppercase() == "JPEG")
+                })
+                && extensions.iter().any(|(name, values)| {
+                    name.to_uppercase() == "ENCODING"
+                        && values.first() == Some(&"b".to_string())
+                })
             {
                 let encoded = &prop.value;
                 let buffer = general_purpose::STANDARD.decode(encoded)?;
-- 
2.43.0


From 2e43d8adb219535f857af090ae7af284f7457192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 20/29] fix: write the value type of BDAY, ANNIVERSARY and TZ
 values made with From

---
 src/parameter.rs |  8 ++++++++
 src/property.rs  | 23 +++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 739f1c3..9ffbcc3 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -558,6 +558,14 @@ pub struct Parameters {
     pub extensions: Option<Vec<(String, Vec<String>)>>,
 }
 
+impl From<ValueType> for Parameters {
+    fn from(value: ValueType) -> Self {
+        let mut parameters = Self::default();
+        parameters.value = Some(value);
+        parameters
+    }
+}
+
 impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
diff --git a/src/property.rs b/src/property.rs
index b762b8f..474431e 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -27,7 +27,7 @@ use crate::{
         format_timestamp_list, format_utc_offset, parse_date,
         parse_date_time, parse_time, parse_utc_offset,
     },
-    parameter::Parameters,
+    parameter::{Parameters, ValueType},
     splitn_escaped, unescape_text,
 };
 
@@ -689,7 +689,12 @@ pub enum DateTimeOrTextProperty {
 
 impl From<String> for DateTimeOrTextProperty {
     fn from(value: String) -> Self {
-        Self::Text(value.into())
+        // Text is not the default value type
+        Self::Text(TextProperty {
+            value,
+            group: None,
+            parameters: Some(ValueType::Text.into()),
+        })
     }
 }
 
@@ -825,13 +830,23 @@ impl From<String> for TimeZoneProperty {
 
 impl From<Uri> for TimeZoneProperty {
     fn from(value: Uri) -> Self {
-        Self::Uri(value.into())
+        // Text is the default value type
+        Self::Uri(UriProperty {
+            value,
+            group: None,
+            parameters: Some(ValueType::Uri.into()),
+        })
     }
 }
 
 impl From<UtcOffset> for TimeZoneProperty {
     fn from(value: UtcOffset) -> Self {
-        Self::UtcOffset(value.into())
+        // Text is the default value type
+        Self::UtcOffset(UtcOffsetProperty {
+            value,
+            group: None,
+            parameters: Some(ValueType::UtcOffset.into()),
+        })
     }
 }
 
-- 
2.43.0


From 100f594d36671773aa179304eb51ca894d18e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 21/29] fix: honour VALUE=text of PHOTO

---
 src/parser.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7394e2e..1e1fa57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -599,22 +599,31 @@ impl<'s> VcardParser<'s> {
                     group,
                 });
             }
-            PHOTO => match value.as_ref().parse::<Uri>() {
-                Ok(value) => {
-                    card.photo.push(TextOrUriProperty::Uri(UriProperty {
-                        value,
-                        parameters,
-                        group,
-                    }));
-                }
-                Err(_) => {
-                    card.photo.push(TextOrUriProperty::Text(TextProperty {
-                        value: value.into_owned(),
-                        parameters,
-                        group,
-                    }));
+            PHOTO => {
+                let is_text = parameters
+                    .as_ref()
+                    .is_some_and(|p| p.value == Some(ValueType::Text));
+                match value.as_ref().parse::<Uri>() {
+                    Ok(value) if !is_text => {
+                        card.photo.push(TextOrUriProperty::Uri(
+                            UriProperty {
+                                value,
+                                parameters,
+                                group,
+                            },
+                        ));
+                    }
+                    _ => {
+                        card.photo.push(TextOrUriProperty::Text(
+                            TextProperty {
+                                value: value.into_owned(),
+                                parameters,
+                                group,
+                            },
+                        ));
+                    }
                 }
-            },
+            }
             BDAY => {
                 if card.bday.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
-- 
2.43.0


From 21c8d8a17d8bb9135057746bb5a2047a5b9166c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 22/29] fix: read a serialized Date back

---
 src/date_time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..5b538bd 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,7 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        let format = format_description::parse("[year]-[month]-[day]")?;
+        Ok(Self(time::Date::parse(s, &format)?))
     }
 }
-- 
2.43.0


From 07fd6aebc90c5821a756946ff975aea2f22b680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 23/29] fix: restore the value types when deserializing

---
 src/property.rs |  14 ++++-
 src/serde.rs    | 152 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 163 insertions(+), 3 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 474431e..d93b6fa 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -307,6 +307,10 @@ pub struct ClientPidMapProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
+#[cfg_attr(
+    feature = "serde",
+    serde(from = "crate::serde::UntypedExtensionProperty")
+)]
 pub struct ExtensionProperty {
     /// The property name.
     pub name: String,
@@ -628,7 +632,10 @@ impl fmt::Display for DateAndOrTimeProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(
+    feature = "serde",
+    serde(untagged, from = "crate::serde::UntypedTextProperty")
+)]
 #[allow(clippy::large_enum_variant)]
 pub enum TextOrUriProperty {
     /// Text value.
@@ -811,7 +818,10 @@ impl FromStr for UtcOffsetProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
-#[cfg_attr(feature = "serde", serde(untagged))]
+#[cfg_attr(
+    feature = "serde",
+    serde(untagged, from = "crate::serde::UntypedTimeZoneProperty")
+)]
 #[allow(clippy::large_enum_variant)]
 pub enum TimeZoneProperty {
     /// Text value.
diff --git a/src/serde.rs b/src/serde.rs
index 5ac3969..65a8c6a 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,4 +1,154 @@
-//! Helpers for adding serde support to external types.
+//! Helpers for adding serde support to external types and to
+//! property values whose type depends on the VALUE parameter.
+use ::serde::Deserialize;
+use time::UtcOffset;
+
+use crate::{
+    parameter::{Parameters, ValueType},
+    property::{
+        AnyProperty, DateAndOrTime, ExtensionProperty, TextOrUriProperty,
+        TextProperty, TimeZoneProperty, UriProperty, UtcOffsetProperty,
+    },
+};
+
+fn value_type(parameters: Option<&Parameters>) -> Option<&ValueType> {
+    parameters.and_then(|p| p.value.as_ref())
+}
+
+fn into_uri(
+    text: TextProperty,
+) -> std::result::Result<UriProperty, TextProperty> {
+    match text.value.parse() {
+        Ok(value) => Ok(UriProperty {
+            value,
+            group: text.group.clone(),
+            parameters: text.parameters.clone(),
+        }),
+        Err(_) => Err(text),
+    }
+}
+
+/// Text that may need to be converted to a URI.
+#[derive(Deserialize)]
+#[serde(transparent)]
+pub(crate) struct UntypedTextProperty(TextProperty);
+
+impl From<UntypedTextProperty> for TextOrUriProperty {
+    fn from(UntypedTextProperty(text): UntypedTextProperty) -> Self {
+        match value_type(text.parameters.as_ref()) {
+            Some(ValueType::Text) => Self::Text(text),
+            _ => match into_uri(text) {
+                Ok(uri) => Self::Uri(uri),
+                Err(text) => Self::Text(text),
+            },
+        }
+    }
+}
+
+/// Time zone whose text may need to be converted to a URI.
+#[derive(Deserialize)]
+#[serde(untagged)]
+#[allow(clippy::large_enum_variant)]
+pub(crate) enum UntypedTimeZoneProperty {
+    Text(TextProperty),
+    UtcOffset(UtcOffsetProperty),
+}
+
+impl From<UntypedTimeZoneProperty> for TimeZoneProperty {
+    fn from(value: UntypedTimeZoneProperty) -> Self {
+        match value {
+            UntypedTimeZoneProperty::Text(text) => {
+                match value_type(text.parameters.as_ref()) {
+                    Some(ValueType::Uri) => match into_uri(text) {
+                        Ok(uri) => Self::Uri(uri),
+                        Err(text) => Self::Text(text),
+                    },
+                    _ => Self::Text(text),
+                }
+            }
+            UntypedTimeZoneProperty::UtcOffset(offset) => {
+                Self::UtcOffset(offset)
+            }
+        }
+    }
+}
+
+/// Extension property whose value may need to be converted
+/// to the type given by the VALUE parameter.
+#[derive(Deserialize)]
+pub(crate) struct UntypedExtensionProperty {
+    name: String,
+    #[serde(default)]
+    group: Option<String>,
+    value: AnyProperty,
+    #[serde(default)]
+    parameters: Option<Parameters>,
+}
+
+impl From<UntypedExtensionProperty> for ExtensionProperty {
+    fn from(property: UntypedExtensionProperty) -> Self {
+        let UntypedExtensionProperty {
+            name,
+            group,
+            value,
+            parameters,
+        } = property;
+        let value = match value_type(parameters.as_ref()) {
+            Some(value_type) => convert_value(value_type, value),
+            None => value,
+        };
+        Self {
+            name,
+            group,
+            value,
+            parameters,
+        }
+    }
+}
+
+/// Convert a value to the given type when the untagged
+/// representation is ambiguous.
+fn convert_value(value_type: &ValueType, value: AnyProperty) -> AnyProperty {
+    match (value_type, &value) {
+        (ValueType::Uri, AnyProperty::Text(text)) => {
+            text.parse().map_or(value, AnyProperty::Uri)
+        }
+        (ValueType::LanguageTag, AnyProperty::Text(text)) => {
+            text.parse().map_or(value, AnyProperty::Language)
+        }
+        (ValueType::Timestamp, AnyProperty::DateTime(list)) => {
+            AnyProperty::Timestamp(list.clone())
+        }
+        (ValueType::DateAndOrTime, AnyProperty::Date(list)) => {
+            AnyProperty::DateAndOrTime(
+                list.iter().cloned().map(DateAndOrTime::Date).collect(),
+            )
+        }
+        (ValueType::DateAndOrTime, AnyProperty::DateTime(list)) => {
+            AnyProperty::DateAndOrTime(
+                list.iter().cloned().map(DateAndOrTime::DateTime).collect(),
+            )
+        }
+        (ValueType::DateAndOrTime, AnyProperty::Time(list)) => {
+            AnyProperty::DateAndOrTime(
+                list.iter().cloned().map(DateAndOrTime::Time).collect(),
+            )
+        }
+        (ValueType::UtcOffset, AnyProperty::Integer(list)) => {
+            let parts = match list[..] {
+                [h, m, s] => (h.try_into(), m.try_into(), s.try_into()),
+                _ => return value,
+            };
+            match parts {
+                (Ok(h), Ok(m), Ok(s)) => UtcOffset::from_hms(h, m, s)
+                    .map_or(value, AnyProperty::UtcOffset),
+                _ => value,
+            }
+        }
+        _ => value,
+    }
+}
+
 #[cfg(feature = "mime")]
 pub(crate) mod media_type {
     use mime::Mime;
-- 
2.43.0


From d4d78fc61efd43f0ea43965564d147b222312461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 24/29] fix: no parameters for a property when all of them are
 ignored

---
 src/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e1fa57..e65c6d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -230,13 +230,11 @@ impl<'s> VcardParser<'s> {
         if let Some(delimiter) = delimiter {
             if delimiter == Ok(Token::ParameterDelimiter) {
                 let parameters = self.parse_parameters(lex, name)?;
+                // All the parameters may have been ignored
+                let parameters = (parameters != Parameters::default())
+                    .then_some(parameters);
                 self.parse_property_by_name(
-                    lex,
-                    token,
-                    card,
-                    name,
-                    Some(parameters),
-                    group,
+                    lex, token, card, name, parameters, group,
                 )?;
             } else if delimiter == Ok(Token::PropertyDelimiter) {
                 self.parse_property_by_name(
-- 
2.43.0


From 84a74124aaf5751f8fb814b883aea85bfa379c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 25/29] fix: do not panic on a relative reference with a colon
 in the first segment

---
 src/uri.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..37653e2 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URI, URIError, URIReference};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,11 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(URI::try_from(s)?.into_owned()))
+        // `URI::try_from()` panics for a relative reference with
+        // a colon in the first segment, such as `1a:b`
+        let reference = URIReference::try_from(s).map_err(|error| {
+            URIError::try_from(error).unwrap_or(URIError::NotURI)
+        })?;
+        Ok(Self(URI::try_from(reference)?.into_owned()))
     }
 }
-- 
2.43.0


From 94360fec1fa8d289bbf7df9b69e6824702a2e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 26/29] fix: drop fractions of a second when parsing a time

---
 src/helper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index e7cc592..be642d0 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -95,7 +95,9 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..value.len() - 1];
     }
 
-    let time = Time::parse(value, &Iso8601::DEFAULT)?;
+    // Fractions of a second can't be written to a vCard
+    let time =
+        Time::parse(value, &Iso8601::DEFAULT)?.replace_nanosecond(0)?;
     Ok((time, offset))
 }
 
-- 
2.43.0


From 8c3ba3136b5310a26e810ff529493ea555f78cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 27/29] fix: only ASCII letters in names and keywords

---
 src/parser.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e65c6d5..d798fec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -20,27 +20,27 @@ type LexResult<T> = std::result::Result<T, LexError>;
 #[derive(Logos, Debug, PartialEq)]
 #[logos(error = LexError)]
 pub(crate) enum Token {
-    #[regex("(?i:BEGIN:VCARD)")]
+    #[regex("(?i-u:BEGIN:VCARD)")]
     Begin,
 
-    #[regex("(?i:VERSION:[3-4]\\.0)")]
+    #[regex("(?i-u:VERSION:[3-4]\\.0)")]
     Version,
 
     // Special case shared between property and parameter
-    #[regex("(?i:TZ)")]
+    #[regex("(?i-u:TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[regex("(?i:GEO)")]
+    #[regex("(?i-u:GEO)")]
     Geo,
 
-    #[regex("(?i:[a-z0-9-]+\\.(TZ|GEO))")]
+    #[regex("(?i-u:[a-z0-9-]+\\.(TZ|GEO))")]
     #[regex(
-        "(?i:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
+        "(?i-u:([a-z0-9-]+\\.)?(SOURCE|KIND|FN|N|NICKNAME|PHOTO|BDAY|ANNIVERSARY|GENDER|ADR|TEL|EMAIL|IMPP|LANG|TITLE|ROLE|LOGO|ORG|MEMBER|RELATED|CATEGORIES|NOTE|PRODID|REV|SOUND|UID|CLIENTPIDMAP|URL|KEY|FBURL|CALADRURI|CALURI|XML|VERSION|(X-[a-z0-9-]+)))"
     )]
     PropertyName,
 
-    #[regex("(?i:x-[a-z0-9-]+)")]
+    #[regex("(?i-u:x-[a-z0-9-]+)")]
     ExtensionName,
 
     #[token(";")]
@@ -50,7 +50,7 @@ pub(crate) enum Token {
     DoubleQuote,
 
     #[regex(
-        "(?i:LANGUAGE|VALUE|PREF|ALTID|PID|TYPE|MEDIATYPE|CALSCALE|SORT-AS|CHARSET|LABEL|ENCODING)"
+        "(?i-u:LANGUAGE|VALUE|PREF|ALTID|PID|TYPE|MEDIATYPE|CALSCALE|SORT-AS|CHARSET|LABEL|ENCODING)"
     )]
     ParameterKey,
 
@@ -69,7 +69,7 @@ pub(crate) enum Token {
     #[token("\\\\")]
     EscapedBackSlash,
 
-    #[regex("(?i:\\\\n)")]
+    #[regex("(?i-u:\\\\n)")]
     EscapedNewLine,
 
     #[regex("\\r?\\n", priority = 3)]
@@ -81,7 +81,7 @@ pub(crate) enum Token {
     #[regex("[[:cntrl:]]", priority = 1)]
     Control,
 
-    #[regex("(?i:END:VCARD)")]
+    #[regex("(?i-u:END:VCARD)")]
     End,
 
     #[regex("[\u{00}-\u{7F}]", priority = 0)]
-- 
2.43.0


From 95e44a872fa877a423b6e68f0bd1a7336b0b28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 28/29] fix: reject UTC offsets of 24 hours or more

---
 src/helper.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index be642d0..8b67c09 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -24,10 +24,20 @@ pub fn parse_utc_offset(value: &str) -> Result<UtcOffset> {
     let offset_hours =
         format_description::parse("[offset_hour sign:mandatory]")?;
 
-    if let Ok(result) = UtcOffset::parse(value, &offset_format) {
-        Ok(result)
+    let result = if let Ok(result) = UtcOffset::parse(value, &offset_format) {
+        result
+    } else {
+        UtcOffset::parse(value, &offset_hours)?
+    };
+    check_utc_offset(result, value)
+}
+
+/// Hours of an offset must be less than a day.
+fn check_utc_offset(offset: UtcOffset, value: &str) -> Result<UtcOffset> {
+    if offset.whole_hours().abs() < 24 {
+        Ok(offset)
     } else {
-        Ok(UtcOffset::parse(value, &offset_hours)?)
+        Err(Error::InvalidTime(value.to_string()))
     }
 }
 
@@ -302,10 +312,12 @@ pub fn parse_timestamp(value: &str) -> Result<DateTime> {
     )?;
 
     if let Ok(result) = OffsetDateTime::parse(value, &offset_format) {
+        check_utc_offset(result.offset(), value)?;
         Ok(result.into())
     } else if let Ok(result) =
         OffsetDateTime::parse(value, &offset_format_hours)
     {
+        check_utc_offset(result.offset(), value)?;
         Ok(result.into())
     } else if let Ok(result) = PrimitiveDateTime::parse(value, &utc_format) {
         let result = OffsetDateTime::now_utc().replace_date_time(result);
-- 
2.43.0


From f38ea209a2bdd0b215cfce17a19252e47a29df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 29/29] fix: a date with a time is neither a date nor a time

---
 src/helper.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 8b67c09..35ef9b3 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -105,6 +105,11 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
         value = &value[0..value.len() - 1];
     }
 
+    // ISO8601 parsing would accept (and lose) a date before the time
+    if value.find('T').is_some_and(|pos| pos > 0) {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
+
     // Fractions of a second can't be written to a vCard
     let time =
         Time::parse(value, &Iso8601::DEFAULT)?.replace_nanosecond(0)?;
@@ -210,6 +215,9 @@ fn do_parse_date(s: &str) -> Result<Date> {
         Ok(result)
     } else if let Ok(result) = Date::parse(s, &year_month) {
         Ok(result)
+    } else if s.contains('T') {
+        // ISO8601 parsing would accept (and lose) a time after the date
+        Err(Error::InvalidDate(s.to_string()))
     } else {
         Ok(Date::parse(s, &Iso8601::DEFAULT)?)
     }
-- 
2.43.0

