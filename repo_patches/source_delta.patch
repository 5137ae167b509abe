From 998e06410bcb12b6980ee9edb959d5a914e11758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 01/28] fix: date-and-or-time parsing panics on a leading
 multibyte character

---
 src/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 7b39a64..0b4a675 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -539,8 +539,8 @@ impl FromStr for DateAndOrTime {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        if !s.is_empty() && &s[0..1] == "T" {
-            return Ok(Self::Time(parse_time(&s[1..])?));
+        if let Some(time) = s.strip_prefix('T') {
+            return Ok(Self::Time(parse_time(time)?));
         }
 
         match parse_date_time(s) {
-- 
2.43.0


From ee23d9e912b0a9313ace5c5c3bb6605c887ef49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 02/28] fix: iterator yields errors forever after an invalid
 vCard or trailing newline

---
 src/iter.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 7e32c7f..20c97fb 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,9 +1,9 @@
 //! Iterator for parsing vCards.
 use crate::{
-    Error, Result, Vcard,
+    Result, Vcard,
     parser::{Token, VcardParser},
 };
-use std::ops::Range;
+use logos::Lexer;
 
 /// Iterator for parsing vCards.
 pub struct VcardIterator<'s> {
@@ -21,17 +21,34 @@ impl<'s> VcardIterator<'s> {
     }
 
     /// Parse the next vCard.
-    fn parse_next(&self, offset: usize) -> Result<(Vcard, Range<usize>)> {
+    ///
+    /// Returns `None` when only newlines remain.
+    fn parse_next(&mut self) -> Option<Result<Vcard>> {
         let mut lex = self.parser.lexer();
-        lex.bump(offset);
+        lex.bump(self.offset);
         while let Some(first) = lex.next() {
             if first == Ok(Token::NewLine) {
                 continue;
-            } else {
-                return self.parser.parse_one(&mut lex, Some(first));
             }
+            let result = self.parser.parse_one(&mut lex, Some(first));
+            if result.is_err() {
+                skip_card(&mut lex);
+            }
+            self.offset = lex.span().end;
+            return Some(result.map(|(card, _)| card));
+        }
+        None
+    }
+}
+
+/// Skip past the end of a vCard that has errors.
+fn skip_card(lex: &mut Lexer<'_, Token>) {
+    let mut is_line_start = lex.slice().ends_with('\n');
+    while let Some(token) = lex.next() {
+        if is_line_start && token == Ok(Token::End) {
+            break;
         }
-        Err(Error::TokenExpected)
+        is_line_start = token == Ok(Token::NewLine);
     }
 }
 
@@ -39,15 +56,6 @@ impl<'s> Iterator for VcardIterator<'s> {
     type Item = Result<Vcard>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset >= self.parser.source.len() {
-            return None;
-        }
-        match self.parse_next(self.offset) {
-            Ok((card, span)) => {
-                self.offset = span.end;
-                Some(Ok(card))
-            }
-            Err(e) => Some(Err(e)),
-        }
+        self.parse_next()
     }
 }
-- 
2.43.0


From b40e2e46168b7df43c7804658d035e6f2eac86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 03/28] fix: vCard without an END:VCARD line is accepted

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6a0680..0a096ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<()> {
         while let Some(first) = lex.next() {
             if first == Ok(Token::End) {
-                break;
+                return Ok(());
             }
             if let Ok(Token::Version) = first {
                 return Err(Error::VersionMisplaced);
@@ -179,7 +179,7 @@ impl<'s> VcardParser<'s> {
                 return Err(e);
             }
         }
-        Ok(())
+        Err(Error::TokenExpected)
     }
 
     /// Parse a single property.
-- 
2.43.0


From deb572d84bc8db8310de0a25e52f52b968cc35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 04/28] fix: TZ and GEO names must be case insensitive and may
 have a group

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0a096ae..0cfee23 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,11 +26,11 @@ pub(crate) enum Token {
     Version,
 
     // Special case shared between property and parameter
-    #[token("TZ")]
+    #[regex("(?i:([a-z0-9-]+\\.)?TZ)")]
     TimeZone,
 
     // Special case shared between property and parameter
-    #[token("GEO")]
+    #[regex("(?i:([a-z0-9-]+\\.)?GEO)")]
     Geo,
 
     #[regex(
-- 
2.43.0


From 0327230255ee18db407a611bcc45bce0784eb106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 05/28] fix: folded lines inside escape sequences and names are
 not unfolded

---
 src/lib.rs    |  4 ++--
 src/parser.rs | 57 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5518dd1..526a801 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,8 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\r", "\n ", "\n\t", "\\n", "\\N", "\\,"];
-    let replace_with = &["", "", "", "\n", "\n", ","];
+    let patterns = &["\\n", "\\N", "\\,"];
+    let replace_with = &["\n", "\n", ","];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 0cfee23..b946c4d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -58,9 +58,6 @@ pub(crate) enum Token {
     #[token(":")]
     PropertyDelimiter,
 
-    #[regex("\\r?\\n( |\\t)")]
-    FoldedLine,
-
     #[token("\\,")]
     EscapedComma,
 
@@ -89,16 +86,46 @@ pub(crate) enum Token {
     Text,
 }
 
+/// Unfold the lines of a source string.
+///
+/// A line break immediately followed by a space or tab is removed
+/// and may appear anywhere; in particular the break could be inside
+/// an escape sequence or a name.
+fn unfold(source: &str) -> Cow<'_, str> {
+    if !source.contains("\n ") && !source.contains("\n\t") {
+        return Cow::Borrowed(source);
+    }
+
+    let mut unfolded = String::with_capacity(source.len());
+    let mut line_break = "";
+    for mut line in source.split_inclusive('\n') {
+        if !line_break.is_empty() && line.starts_with([' ', '\t']) {
+            line = &line[1..];
+        } else {
+            unfolded.push_str(line_break);
+        }
+        let content = line.strip_suffix('\n').unwrap_or(line);
+        let content = content.strip_suffix('\r').unwrap_or(content);
+        unfolded.push_str(content);
+        line_break = &line[content.len()..];
+    }
+    unfolded.push_str(line_break);
+    Cow::Owned(unfolded)
+}
+
 /// Parses vCards from a string.
 pub(crate) struct VcardParser<'s> {
     strict: bool,
-    pub(crate) source: &'s str,
+    source: Cow<'s, str>,
 }
 
 impl<'s> VcardParser<'s> {
     /// Create a new parser.
     pub fn new(source: &'s str, strict: bool) -> Self {
-        Self { source, strict }
+        Self {
+            strict,
+            source: unfold(source),
+        }
     }
 
     /// Parse a UTF-8 encoded string into a list of vCards.
@@ -126,8 +153,8 @@ impl<'s> VcardParser<'s> {
     }
 
     /// Get a lexer for the current source.
-    pub(crate) fn lexer(&self) -> Lexer<'s, Token> {
-        Token::lexer(self.source)
+    pub(crate) fn lexer(&self) -> Lexer<'_, Token> {
+        Token::lexer(&self.source)
     }
 
     /// Parse a single vCard.
@@ -431,7 +458,7 @@ impl<'s> VcardParser<'s> {
     ) -> Result<(String, LexResult<Token>, bool)> {
         let mut first_range: Option<Range<usize>> = None;
         let mut quoted = false;
-        let mut is_folded_or_escaped = false;
+        let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
             let span = lex.span();
@@ -442,12 +469,11 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedNewLine)
+            if token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-                is_folded_or_escaped = true;
+                is_escaped = true;
             }
 
             let completed = if first_range.is_some() && quoted {
@@ -490,7 +516,7 @@ impl<'s> VcardParser<'s> {
                     };
                 }
 
-                let value = if is_folded_or_escaped {
+                let value = if is_escaped {
                     unescape_value(value)
                 } else {
                     value.to_string()
@@ -1015,8 +1041,7 @@ impl<'s> VcardParser<'s> {
                 )));
             }
 
-            if token == Ok(Token::FoldedLine)
-                || token == Ok(Token::EscapedSemiColon)
+            if token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedNewLine)
                 || token == Ok(Token::EscapedBackSlash)
@@ -1036,9 +1061,7 @@ impl<'s> VcardParser<'s> {
             if needs_transform {
                 let mut value = String::new();
                 for (token, span) in tokens {
-                    if token == Ok(Token::FoldedLine) {
-                        continue;
-                    } else if token == Ok(Token::EscapedComma) {
+                    if token == Ok(Token::EscapedComma) {
                         value.push(',');
                         continue;
                     } else if token == Ok(Token::EscapedSemiColon) {
-- 
2.43.0


From 0e7e465946cc9a2aa71beb1b43f6043dcf079a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 06/28] fix: structured values are unescaped before they are
 split

---
 src/lib.rs      | 29 +++++++++++++++++++
 src/parser.rs   | 31 ++++++++------------
 src/property.rs | 76 ++++++++++---------------------------------------
 3 files changed, 56 insertions(+), 80 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 526a801..2849a3e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -162,6 +162,35 @@ pub(crate) fn unescape_value(value: &str) -> String {
     ac.replace_all(value, replace_with)
 }
 
+/// Split a structured value on the delimiters that are not escaped
+/// and unescape each of the components.
+pub(crate) fn split_value(
+    value: &str,
+    delimiter: char,
+    limit: usize,
+) -> Vec<String> {
+    let mut values = vec![];
+    let mut component = String::new();
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        if c == delimiter && values.len() + 1 < limit {
+            values.push(std::mem::take(&mut component));
+            continue;
+        }
+        let escaped = match (c, chars.clone().next()) {
+            ('\\', Some('n' | 'N')) => Some('\n'),
+            ('\\', Some(next @ ('\\' | ',' | ';'))) => Some(next),
+            _ => None,
+        };
+        if escaped.is_some() {
+            chars.next();
+        }
+        component.push(escaped.unwrap_or(c));
+    }
+    values.push(component);
+    values
+}
+
 pub(crate) fn escape_control(value: &str) -> String {
     let values = value
         .chars()
diff --git a/src/parser.rs b/src/parser.rs
index b946c4d..eb60057 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use mime::Mime;
 
 use crate::{
     Error, Result, Uri, Vcard, error::LexError, escape_control, helper::*,
-    name::*, parameter::*, property::*, unescape_value,
+    name::*, parameter::*, property::*, split_value, unescape_value,
 };
 
 type LexResult<T> = std::result::Result<T, LexError>;
@@ -538,10 +538,14 @@ impl<'s> VcardParser<'s> {
         parameters: Option<Parameters>,
         group: Option<String>,
     ) -> Result<()> {
-        let value = self.parse_property_value(lex)?;
-
         let upper_name = name.to_uppercase();
 
+        // Components of a structured value must be
+        // split before they are unescaped
+        let is_structured =
+            matches!(&upper_name[..], N | GENDER | ADR | ORG | CATEGORIES);
+        let value = self.parse_property_value(lex, !is_structured)?;
+
         if token == Ok(Token::ExtensionName) || upper_name.starts_with("X-") {
             self.parse_extension_property_by_name(
                 card, name, value, parameters, group,
@@ -591,11 +595,7 @@ impl<'s> VcardParser<'s> {
                 if card.name.is_some() {
                     return Err(Error::OnlyOnce(upper_name));
                 }
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_value(&value, ';', usize::MAX);
                 card.name = Some(TextListProperty {
                     value,
                     parameters,
@@ -789,11 +789,7 @@ impl<'s> VcardParser<'s> {
                 });
             }
             ORG => {
-                let value = value
-                    .as_ref()
-                    .split(';')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_value(&value, ';', usize::MAX);
                 card.org.push(TextListProperty {
                     value,
                     parameters,
@@ -821,11 +817,7 @@ impl<'s> VcardParser<'s> {
             // Explanatory
             // https://www.rfc-editor.org/rfc/rfc6350#section-6.7
             CATEGORIES => {
-                let value = value
-                    .as_ref()
-                    .split(',')
-                    .map(|s| s.to_string())
-                    .collect::<Vec<_>>();
+                let value = split_value(&value, ',', usize::MAX);
                 card.categories.push(TextListProperty {
                     value,
                     parameters,
@@ -1022,6 +1014,7 @@ impl<'s> VcardParser<'s> {
     fn parse_property_value<'a>(
         &self,
         lex: &'a mut Lexer<'_, Token>,
+        unescape: bool,
     ) -> Result<Cow<'a, str>> {
         let mut first_range: Option<Range<usize>> = None;
         let mut last_range: Option<Range<usize>> = None;
@@ -1058,7 +1051,7 @@ impl<'s> VcardParser<'s> {
         }
 
         if let (Some(first), Some(last)) = (first_range, last_range) {
-            if needs_transform {
+            if needs_transform && unescape {
                 let mut value = String::new();
                 for (token, span) in tokens {
                     if token == Ok(Token::EscapedComma) {
diff --git a/src/property.rs b/src/property.rs
index 0b4a675..2d40233 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -28,6 +28,7 @@ use crate::{
         parse_date_time, parse_time, parse_utc_offset,
     },
     parameter::Parameters,
+    split_value,
 };
 
 const INDIVIDUAL: &str = "individual";
@@ -135,64 +136,19 @@ impl FromStr for DeliveryAddress {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        let mut it = s.splitn(7, ';');
-        let po_box = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let extended_address = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let street_address = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let locality = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let region = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let postal_code = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-        let country_name = it
-            .next()
-            .ok_or_else(|| Error::InvalidAddress(s.to_string()))?;
-
-        let po_box = if !po_box.is_empty() {
-            Some(po_box.to_owned())
-        } else {
-            None
-        };
-        let extended_address = if !extended_address.is_empty() {
-            Some(extended_address.to_owned())
-        } else {
-            None
-        };
-        let street_address = if !street_address.is_empty() {
-            Some(street_address.to_owned())
-        } else {
-            None
-        };
-        let locality = if !locality.is_empty() {
-            Some(locality.to_owned())
-        } else {
-            None
-        };
-        let region = if !region.is_empty() {
-            Some(region.to_owned())
-        } else {
-            None
-        };
-        let postal_code = if !postal_code.is_empty() {
-            Some(postal_code.to_owned())
-        } else {
-            None
-        };
-        let country_name = if !country_name.is_empty() {
-            Some(country_name.to_owned())
-        } else {
-            None
+        let mut it = split_value(s, ';', 7).into_iter();
+        let mut next = || {
+            it.next()
+                .map(|value| Some(value).filter(|value| !value.is_empty()))
+                .ok_or_else(|| Error::InvalidAddress(s.to_string()))
         };
+        let po_box = next()?;
+        let extended_address = next()?;
+        let street_address = next()?;
+        let locality = next()?;
+        let region = next()?;
+        let postal_code = next()?;
+        let country_name = next()?;
 
         Ok(Self {
             po_box,
@@ -1153,16 +1109,14 @@ impl FromStr for Gender {
             });
         }
 
-        let mut it = s.splitn(2, ';');
+        let mut it = split_value(s, ';', 2).into_iter();
         let sex = it.next().ok_or(Error::NoSex)?;
         let sex: Sex = sex.parse()?;
         let mut gender = Gender {
             sex,
             identity: None,
         };
-        if let Some(identity) = it.next() {
-            gender.identity = Some(identity.to_string());
-        }
+        gender.identity = it.next();
 
         Ok(gender)
     }
-- 
2.43.0


From c8b9e8d23984e4b7bf274172c1d009a7eb06bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 07/28] fix: parameter values accept line breaks and misplaced
 double quotes

---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index eb60057..8d6cb60 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -476,6 +476,15 @@ impl<'s> VcardParser<'s> {
                 is_escaped = true;
             }
 
+            // Values cannot span lines and can only be quoted as a whole
+            if token == Ok(Token::NewLine)
+                || (token == Ok(Token::DoubleQuote)
+                    && first_range.is_some()
+                    && !quoted)
+            {
+                return Err(Error::DelimiterExpected);
+            }
+
             let completed = if first_range.is_some() && quoted {
                 token == Ok(Token::DoubleQuote)
             } else {
@@ -498,7 +507,7 @@ impl<'s> VcardParser<'s> {
                 let mut value = &source[begin..end];
 
                 // Remove double quotes if necessary
-                if value.len() >= 2 && quoted {
+                if quoted {
                     value = &source[begin + 1..end];
                 }
 
-- 
2.43.0


From 6a061e647e04c0255381ac283ae07e10e9e80090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 08/28] fix: parameter values are not escaped when printed

---
 src/lib.rs       |  4 ++--
 src/parameter.rs | 35 +++++++++++++++++++++++++----------
 src/parser.rs    |  1 +
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2849a3e..04bf6e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,8 @@ pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
 
 pub(crate) fn unescape_value(value: &str) -> String {
     use aho_corasick::AhoCorasick;
-    let patterns = &["\\n", "\\N", "\\,"];
-    let replace_with = &["\n", "\n", ","];
+    let patterns = &["\\\\", "\\n", "\\N", "\\,", "\\;"];
+    let replace_with = &["\\", "\n", "\n", ",", ";"];
     let ac = AhoCorasick::new(patterns).unwrap();
     ac.replace_all(value, replace_with)
 }
diff --git a/src/parameter.rs b/src/parameter.rs
index 5620496..5c72d91 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -22,7 +22,7 @@ use zeroize::{Zeroize, ZeroizeOnDrop};
 use mime::Mime;
 
 use crate::{
-    Error, Result, Uri,
+    Error, Result, Uri, escape_value,
     helper::format_utc_offset,
     name::{HOME, WORK},
 };
@@ -562,7 +562,7 @@ impl fmt::Display for Parameters {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use crate::name::*;
         if let Some(language) = &self.language {
-            write!(f, ";{}={}", LANGUAGE, language)?;
+            write!(f, ";{}={}", LANGUAGE, quote_parameter(language))?;
         }
         if let Some(value) = &self.value {
             write!(f, ";{}={}", VALUE, value)?;
@@ -571,22 +571,25 @@ impl fmt::Display for Parameters {
             write!(f, ";{}={}", PREF, pref)?;
         }
         if let Some(alt_id) = &self.alt_id {
-            write!(f, ";{}=\"{}\"", ALTID, alt_id)?;
+            write!(f, ";{}=\"{}\"", ALTID, escape_parameter(alt_id))?;
         }
         if let Some(pids) = &self.pid {
             write!(f, ";{}={}", PID, comma_delimited(pids))?;
         }
         if let Some(types) = &self.types {
-            write!(f, ";{}={}", TYPE, comma_delimited(types))?;
+            let types = comma_delimited(types);
+            write!(f, ";{}={}", TYPE, quote_parameter(&types))?;
         }
         if let Some(media_type) = &self.media_type {
+            let media_type = quote_parameter(media_type);
             write!(f, ";{}={}", MEDIATYPE, media_type)?;
         }
         if let Some(calscale) = &self.calscale {
-            write!(f, ";{}={}", CALSCALE, calscale)?;
+            write!(f, ";{}={}", CALSCALE, quote_parameter(calscale))?;
         }
         if let Some(sort_as) = &self.sort_as {
-            write!(f, ";{}=\"{}\"", SORT_AS, comma_delimited(sort_as))?;
+            let sort_as = escape_parameter(comma_delimited(sort_as));
+            write!(f, ";{}=\"{}\"", SORT_AS, sort_as)?;
         }
         if let Some(geo) = &self.geo {
             write!(f, ";{}=\"{}\"", GEO, geo)?;
@@ -594,7 +597,8 @@ impl fmt::Display for Parameters {
         if let Some(tz) = &self.timezone {
             match tz {
                 TimeZoneParameter::Text(val) => {
-                    write!(f, ";{}={}", TZ, val)?;
+                    // Quotes would turn the text into a URI
+                    write!(f, ";{}={}", TZ, escape_value(val, true))?;
                 }
                 TimeZoneParameter::UtcOffset(val) => {
                     write!(f, ";{}=", TZ)?;
@@ -611,15 +615,26 @@ impl fmt::Display for Parameters {
         }
         if let Some(extensions) = &self.extensions {
             for (name, value) in extensions {
-                write!(f, ";{}=\"{}\"", name, comma_delimited(value))?;
+                let value = escape_parameter(comma_delimited(value));
+                write!(f, ";{}=\"{}\"", name, value)?;
             }
         }
         Ok(())
     }
 }
 
-fn escape_parameter(s: &str) -> String {
-    s.replace('\n', "\\n")
+fn escape_parameter(value: impl fmt::Display) -> String {
+    value.to_string().replace('\\', "\\\\").replace('\n', "\\n")
+}
+
+/// Escape a parameter value and wrap it in quotes when necessary.
+fn quote_parameter(value: impl fmt::Display) -> String {
+    let value = escape_parameter(value);
+    if value.contains([':', ';']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
 }
 
 fn comma_delimited(items: &[impl std::fmt::Display]) -> String {
diff --git a/src/parser.rs b/src/parser.rs
index 8d6cb60..66b175c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -470,6 +470,7 @@ impl<'s> VcardParser<'s> {
             }
 
             if token == Ok(Token::EscapedNewLine)
+                || token == Ok(Token::EscapedSemiColon)
                 || token == Ok(Token::EscapedComma)
                 || token == Ok(Token::EscapedBackSlash)
             {
-- 
2.43.0


From e219d397c658f5d7e3603772cc970d30f8ee35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 09/28] fix: loose parsing resumes in the middle of an invalid
 line

---
 src/parser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 66b175c..3a70898 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -190,20 +190,24 @@ impl<'s> VcardParser<'s> {
                 return Err(Error::VersionMisplaced);
             }
 
-            self.assert_token(
-                Some(&first),
-                &[
-                    Token::PropertyName,
-                    Token::ExtensionName,
-                    Token::TimeZone,
-                    Token::Geo,
-                ],
-            )?;
-
-            if let Err(e) = self.parse_property(lex, first, card)
-                && self.strict
-            {
-                return Err(e);
+            let result = self
+                .assert_token(
+                    Some(&first),
+                    &[
+                        Token::PropertyName,
+                        Token::ExtensionName,
+                        Token::TimeZone,
+                        Token::Geo,
+                    ],
+                )
+                .and_then(|_| self.parse_property(lex, first, card));
+
+            if let Err(e) = result {
+                if self.strict {
+                    return Err(e);
+                }
+                // Ignore the remainder of the invalid line
+                while !lex.slice().ends_with('\n') && lex.next().is_some() {}
             }
         }
         Err(Error::TokenExpected)
-- 
2.43.0


From bd5e2131713cec6d211118376c1ec1e362241318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 10/28] fix: TYPE values home and work must be case insensitive

---
 src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter.rs b/src/parameter.rs
index 5c72d91..fed0cc7 100644
--- a/src/parameter.rs
+++ b/src/parameter.rs
@@ -91,7 +91,7 @@ impl FromStr for TypeParameter {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self> {
-        match s {
+        match &s.to_lowercase()[..] {
             HOME => Ok(Self::Home),
             WORK => Ok(Self::Work),
             _ => {
-- 
2.43.0


From 6db30af256179eec718600597394925208b0dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 11/28] fix: sign of a UTC offset under an hour is lost when
 printed

---
 src/property.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 2d40233..80604f7 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -714,21 +714,7 @@ impl From<UtcOffset> for UtcOffsetProperty {
 
 impl fmt::Display for UtcOffsetProperty {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let (h, m, _) = self.value.as_hms();
-        let sign = if h >= 0 { '+' } else { '-' };
-        let h = h.abs();
-        let m = m.abs();
-        let h = if h < 10 {
-            format!("0{}", h)
-        } else {
-            h.to_string()
-        };
-        let m = if m < 10 {
-            format!("0{}", m)
-        } else {
-            m.to_string()
-        };
-        write!(f, "{}{}{}", sign, h, m,)
+        format_utc_offset(f, &self.value)
     }
 }
 
-- 
2.43.0


From e1c68ddc651e97df9e65f56ea35c314b4ed06abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 12/28] fix: dates cannot be parsed from their own string
 representation

---
 src/date_time.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/date_time.rs b/src/date_time.rs
index 92aba7d..fee0740 100644
--- a/src/date_time.rs
+++ b/src/date_time.rs
@@ -1,6 +1,9 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use time::{OffsetDateTime, format_description::well_known::Rfc3339};
+use time::{
+    OffsetDateTime,
+    format_description::{self, well_known::Rfc3339},
+};
 
 #[cfg(feature = "serde")]
 use serde_with::{DeserializeFromStr, SerializeDisplay, serde_as};
@@ -84,6 +87,9 @@ impl FromStr for Date {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(OffsetDateTime::parse(s, &Rfc3339)?.date()))
+        // Note that a date and time must not be accepted otherwise
+        // they cannot be distinguished when deserializing
+        let format = format_description::parse("[year]-[month]-[day]")?;
+        Ok(Self(time::Date::parse(s, &format)?))
     }
 }
-- 
2.43.0


From 13a33f6f13d160b20001c484712e1c49092e23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 13/28] fix: URIs and UTC offsets are deserialized as text

---
 src/property.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 80604f7..f5e15c8 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -575,10 +575,12 @@ impl fmt::Display for DateAndOrTimeProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 #[allow(clippy::large_enum_variant)]
 pub enum TextOrUriProperty {
-    /// Text value.
-    Text(TextProperty),
+    // NOTE: any URI is also text so the order is
+    // NOTE: important when deserializing
     /// Uri value.
     Uri(UriProperty),
+    /// Text value.
+    Text(TextProperty),
 }
 
 impl From<String> for TextOrUriProperty {
@@ -738,12 +740,14 @@ impl FromStr for UtcOffsetProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 #[allow(clippy::large_enum_variant)]
 pub enum TimeZoneProperty {
-    /// Text value.
-    Text(TextProperty),
-    /// Uri value.
-    Uri(UriProperty),
+    // NOTE: any UTC offset or URI is also text so the order is
+    // NOTE: important when deserializing
     /// UTC offset value.
     UtcOffset(UtcOffsetProperty),
+    /// Uri value.
+    Uri(UriProperty),
+    /// Text value.
+    Text(TextProperty),
 }
 
 impl From<String> for TimeZoneProperty {
-- 
2.43.0


From ed283d5e0b7d8b73244e5254d7340eac68cbb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 14/28] fix: float values accept infinity and NaN

---
 src/helper.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index b99932b..13a67e7 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -394,7 +394,12 @@ pub(crate) fn format_integer_list(
 pub fn parse_float_list(value: &str) -> Result<Vec<f64>> {
     let mut values = Vec::new();
     for value in value.split(',') {
-        values.push(value.parse()?);
+        let value: f64 = value.parse()?;
+        // There is no representation for infinity and NaN
+        if !value.is_finite() {
+            return Err(Error::InvalidPropertyValue);
+        }
+        values.push(value);
     }
     Ok(values)
 }
-- 
2.43.0


From ca675df75acddc2b1701c4d1fb704d0c6bd75255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 15/28] fix: fractional seconds are accepted but silently
 dropped when printed

---
 src/helper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.rs b/src/helper.rs
index 13a67e7..5339e83 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -96,6 +96,10 @@ fn do_parse_time(mut value: &str) -> Result<(Time, UtcOffset)> {
     }
 
     let time = Time::parse(value, &Iso8601::DEFAULT)?;
+    // Fractions of a second would be lost when printed
+    if time.nanosecond() != 0 {
+        return Err(Error::InvalidTime(value.to_string()));
+    }
     Ok((time, offset))
 }
 
-- 
2.43.0


From 52bb86b4928cc771782bfd2561df0fe2b85524ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 16/28] fix: CRLF in a text value is printed with a bare
 carriage return

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04bf6e6..d93dd4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -142,13 +142,13 @@ pub fn iter(source: &str, strict: bool) -> VcardIterator<'_> {
 pub(crate) fn escape_value(value: &str, semi_colons: bool) -> String {
     use aho_corasick::AhoCorasick;
     if semi_colons {
-        let patterns = &["\\", "\n", ",", ";"];
-        let replace_with = &["\\\\", "\\n", "\\,", "\\;"];
+        let patterns = &["\\", "\r\n", "\n", ",", ";"];
+        let replace_with = &["\\\\", "\\n", "\\n", "\\,", "\\;"];
         let ac = AhoCorasick::new(patterns).unwrap();
         ac.replace_all(value, replace_with)
     } else {
-        let patterns = &["\\", "\n", ","];
-        let replace_with = &["\\\\", "\\n", "\\,"];
+        let patterns = &["\\", "\r\n", "\n", ","];
+        let replace_with = &["\\\\", "\\n", "\\n", "\\,"];
         let ac = AhoCorasick::new(patterns).unwrap();
         ac.replace_all(value, replace_with)
     }
-- 
2.43.0


From e7c770d2059d7184f391e17be8e8815f9352ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 17/28] fix: language values are not escaped when printed

---
 src/property.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index f5e15c8..08bd38f 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -345,7 +345,9 @@ impl fmt::Display for AnyProperty {
             Self::Timestamp(val) => format_timestamp_list(f, val),
             Self::UtcOffset(val) => format_utc_offset(f, val),
             Self::Uri(val) => write!(f, "{}", val),
-            Self::Language(val) => write!(f, "{}", val),
+            Self::Language(val) => {
+                write!(f, "{}", escape_value(&val.to_string(), false))
+            }
         }
     }
 }
@@ -400,6 +402,12 @@ impl From<LanguageTag> for LanguageProperty {
     }
 }
 
+impl fmt::Display for LanguageProperty {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", escape_value(&self.value.to_string(), false))
+    }
+}
+
 /// Date time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -1200,7 +1208,6 @@ display_impl!(KindProperty);
 property_impl!(TextProperty);
 
 property_impl!(LanguageProperty);
-display_impl!(LanguageProperty);
 
 property_impl!(DateTimeProperty);
 
-- 
2.43.0


From 481fcaf8ee90d77d492dd178c54e1df7029a7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 18/28] fix: URI without a scheme and with a colon in the path
 panics

---
 src/uri.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index 1b94dfc..575aa7b 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -1,6 +1,6 @@
 use crate::Error;
 use std::{fmt, str::FromStr};
-use uriparse::URI;
+use uriparse::{URI, URIError, URIReference};
 
 /// URI type for the library.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -15,6 +15,11 @@ impl FromStr for Uri {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(URI::try_from(s)?.into_owned()))
+        // Converting directly from a string panics when there is no
+        // scheme and the first path segment contains a colon
+        let reference = URIReference::try_from(s).map_err(|e| {
+            URIError::try_from(e).unwrap_or(URIError::NotURI)
+        })?;
+        Ok(Self(URI::try_from(reference)?.into_owned()))
     }
 }
-- 
2.43.0


From db491060b50fb829f87ddc229019ed06b4c5d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:37 +0000
Subject: [PATCH 19/28] fix: TZ with an explicit text value type is rejected

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3a70898..2d47e71 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -752,6 +752,15 @@ impl<'s> VcardParser<'s> {
                                 },
                             ));
                         }
+                        ValueType::Text => {
+                            card.timezone.push(TimeZoneProperty::Text(
+                                TextProperty {
+                                    value: value.into_owned(),
+                                    parameters,
+                                    group,
+                                },
+                            ));
+                        }
                         _ => {
                             return Err(Error::UnsupportedValueType(
                                 value_type.to_string(),
-- 
2.43.0


From e3e19c1ac4b01c37631ac3b0ad62f3047adfa29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 20/28] fix: unquoted parameter value before a keyword swallows
 the property delimiter

---
 src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2d47e71..7802268 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -465,7 +465,19 @@ impl<'s> VcardParser<'s> {
         let mut is_escaped = false;
 
         while let Some(mut token) = lex.next() {
-            let span = lex.span();
+            let mut span = lex.span();
+
+            // The delimiter of the property may be part of a keyword
+            if matches!(token, Ok(Token::Begin | Token::Version | Token::End))
+                && !quoted
+                && let Some(pos) = lex.slice().find(':')
+            {
+                span.end = span.start + pos;
+                let mut rest = Token::lexer(lex.source());
+                rest.bump(span.end);
+                *lex = rest;
+                token = Ok(Token::Text);
+            }
 
             if token == Ok(Token::Control) {
                 return Err(Error::ControlCharacter(escape_control(
-- 
2.43.0


From 62aa2b21f4eb1c5e2be245e0ff254e11714daa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 21/28] fix: dates are read as times and times printed without
 the T of a date-and-or-time

---
 src/property.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 08bd38f..9f6e99e 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -493,7 +493,7 @@ impl fmt::Display for DateAndOrTime {
                 format_date_time(val).map_err(|_| fmt::Error)?
             ),
             Self::Time(val) => {
-                write!(f, "{}", format_time(val).map_err(|_| fmt::Error)?)
+                write!(f, "T{}", format_time(val).map_err(|_| fmt::Error)?)
             }
         }
     }
@@ -509,13 +509,7 @@ impl FromStr for DateAndOrTime {
 
         match parse_date_time(s) {
             Ok(value) => Ok(Self::DateTime(value)),
-            Err(_) => match parse_date(s) {
-                Ok(value) => Ok(Self::Date(value.into())),
-                Err(_) => match parse_time(s) {
-                    Ok(val) => Ok(Self::Time(val)),
-                    Err(e) => Err(e),
-                },
-            },
+            Err(_) => Ok(Self::Date(parse_date(s)?.into())),
         }
     }
 }
-- 
2.43.0


From 167fff716dd93086d78feefceec3962e2181e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 22/28] fix: find embedded photos whose ENCODING and TYPE are
 not the first values

---
 src/vcard.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index c7a68c2..f9a0858 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -301,13 +301,14 @@ impl Vcard {
                 && let Some(params) = &prop.parameters
                 && let (Some(types), Some(extensions)) =
                     (&params.types, &params.extensions)
-                && let (
-                    Some(TypeParameter::Extension(value)),
-                    Some((name, values)),
-                ) = (types.first(), extensions.first())
-                && name.to_uppercase() == "ENCODING"
-                && values.first() == Some(&"b".to_string())
-                && &value.to_uppercase() == "JPEG"
+                && types.iter().any(|value| {
+                    matches!(value, TypeParameter::Extension(value)
+                        if value.to_uppercase() == "JPEG")
+                })
+                && extensions.iter().any(|(name, values)| {
+                    name.to_uppercase() == "ENCODING"
+                        && values.first() == Some(&"b".to_string())
+                })
             {
                 let encoded = &prop.value;
                 let buffer = general_purpose::STANDARD.decode(encoded)?;
-- 
2.43.0


From 70432e7b9e4b75dd1c0e8af19f55962a3b440942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 23/28] fix: zeroize the group and parameters of BDAY and
 ANNIVERSARY dates on drop

---
 src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/property.rs b/src/property.rs
index 9f6e99e..9ce7aaf 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -517,6 +517,7 @@ impl FromStr for DateAndOrTime {
 /// Date and or time property.
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
 pub struct DateAndOrTimeProperty {
     /// Group for this property.
     #[cfg_attr(
@@ -525,6 +526,7 @@ pub struct DateAndOrTimeProperty {
     )]
     pub group: Option<String>,
     /// The value for the property.
+    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     pub value: Vec<DateAndOrTime>,
     /// The property parameters.
     #[cfg_attr(
@@ -629,7 +631,6 @@ impl fmt::Display for TextOrUriProperty {
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum DateTimeOrTextProperty {
     /// Date time value.
-    #[cfg_attr(feature = "zeroize", zeroize(skip))]
     DateTime(DateAndOrTimeProperty),
     /// Text value.
     Text(TextProperty),
-- 
2.43.0


From f956f84c3818115e16e2b70c2fc7dcaa280ef92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 24/28] fix: restore the type of extension values read from
 JSON

---
 src/property.rs |  4 +++
 src/serde.rs    | 76 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 80 insertions(+)

diff --git a/src/property.rs b/src/property.rs
index 9ce7aaf..72dd61c 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -262,6 +262,10 @@ pub struct ClientPidMapProperty {
 #[derive(Debug, Eq, PartialEq, Clone)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
+#[cfg_attr(
+    feature = "serde",
+    serde(from = "crate::serde::ExtensionPropertyData")
+)]
 pub struct ExtensionProperty {
     /// The property name.
     pub name: String,
diff --git a/src/serde.rs b/src/serde.rs
index 5ac3969..68c1c09 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,4 +1,80 @@
 //! Helpers for adding serde support to external types.
+use crate::{
+    parameter::{Parameters, ValueType},
+    property::{AnyProperty, ExtensionProperty},
+};
+use serde::Deserialize;
+use time::UtcOffset;
+
+/// Extension property before the type of the value is restored.
+#[derive(Deserialize)]
+pub(crate) struct ExtensionPropertyData {
+    name: String,
+    #[serde(default)]
+    group: Option<String>,
+    value: AnyProperty,
+    #[serde(default)]
+    parameters: Option<Parameters>,
+}
+
+impl From<ExtensionPropertyData> for ExtensionProperty {
+    fn from(data: ExtensionPropertyData) -> Self {
+        let value_type =
+            data.parameters.as_ref().and_then(|p| p.value.as_ref());
+        let value = match value_type {
+            Some(value_type) => restore_type(data.value, value_type),
+            None => data.value,
+        };
+        Self {
+            name: data.name,
+            group: data.group,
+            value,
+            parameters: data.parameters,
+        }
+    }
+}
+
+/// Values of some types have the same representation so the
+/// VALUE parameter is needed to tell them apart.
+fn restore_type(
+    mut value: AnyProperty,
+    value_type: &ValueType,
+) -> AnyProperty {
+    use AnyProperty::*;
+    let restored = match (value_type, &mut value) {
+        (ValueType::Uri, Text(val)) => val.parse().ok().map(Uri),
+        (ValueType::LanguageTag, Text(val)) => val.parse().ok().map(Language),
+        (ValueType::UtcOffset, Integer(val)) => parse_offset(val),
+        (ValueType::Timestamp, DateTime(val)) => {
+            Some(Timestamp(std::mem::take(val)))
+        }
+        (ValueType::DateAndOrTime, Date(val)) => {
+            Some(DateAndOrTime(val.drain(..).map(From::from).collect()))
+        }
+        (ValueType::DateAndOrTime, DateTime(val)) => {
+            Some(DateAndOrTime(val.drain(..).map(From::from).collect()))
+        }
+        (ValueType::DateAndOrTime, Time(val)) => {
+            Some(DateAndOrTime(val.drain(..).map(From::from).collect()))
+        }
+        _ => None,
+    };
+    restored.unwrap_or(value)
+}
+
+/// Hours, minutes and seconds of a UTC offset.
+fn parse_offset(value: &[i64]) -> Option<AnyProperty> {
+    let [hours, minutes, seconds] = value else {
+        return None;
+    };
+    let offset = UtcOffset::from_hms(
+        (*hours).try_into().ok()?,
+        (*minutes).try_into().ok()?,
+        (*seconds).try_into().ok()?,
+    );
+    offset.ok().map(AnyProperty::UtcOffset)
+}
+
 #[cfg(feature = "mime")]
 pub(crate) mod media_type {
     use mime::Mime;
-- 
2.43.0


From 3fc1cb4a72babd025fdab99e5c9a878e95c3ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 25/28] fix: keep VALUE=text values that look like URIs as text
 when read from JSON

---
 src/property.rs |  8 ++++++++
 src/serde.rs    | 22 ++++++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/property.rs b/src/property.rs
index 72dd61c..67ce2a1 100644
--- a/src/property.rs
+++ b/src/property.rs
@@ -586,6 +586,10 @@ pub enum TextOrUriProperty {
     // NOTE: any URI is also text so the order is
     // NOTE: important when deserializing
     /// Uri value.
+    #[cfg_attr(
+        feature = "serde",
+        serde(deserialize_with = "crate::serde::uri_property")
+    )]
     Uri(UriProperty),
     /// Text value.
     Text(TextProperty),
@@ -752,6 +756,10 @@ pub enum TimeZoneProperty {
     /// UTC offset value.
     UtcOffset(UtcOffsetProperty),
     /// Uri value.
+    #[cfg_attr(
+        feature = "serde",
+        serde(deserialize_with = "crate::serde::uri_property")
+    )]
     Uri(UriProperty),
     /// Text value.
     Text(TextProperty),
diff --git a/src/serde.rs b/src/serde.rs
index 68c1c09..93041df 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,9 +1,12 @@
 //! Helpers for adding serde support to external types.
 use crate::{
     parameter::{Parameters, ValueType},
-    property::{AnyProperty, ExtensionProperty},
+    property::{AnyProperty, ExtensionProperty, Property, UriProperty},
+};
+use serde::{
+    Deserialize,
+    de::{Deserializer, Error},
 };
-use serde::Deserialize;
 use time::UtcOffset;
 
 /// Extension property before the type of the value is restored.
@@ -62,6 +65,21 @@ fn restore_type(
     restored.unwrap_or(value)
 }
 
+/// Deserialize a URI property unless the value is declared to be text.
+pub(crate) fn uri_property<'de, D>(
+    deserializer: D,
+) -> Result<UriProperty, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let property = UriProperty::deserialize(deserializer)?;
+    let value_type = property.parameters().and_then(|p| p.value.as_ref());
+    if value_type == Some(&ValueType::Text) {
+        return Err(D::Error::custom("value is text"));
+    }
+    Ok(property)
+}
+
 /// Hours, minutes and seconds of a UTC offset.
 fn parse_offset(value: &[i64]) -> Option<AnyProperty> {
     let [hours, minutes, seconds] = value else {
-- 
2.43.0


From 61715efd0830a0ebf411c2f761edb662538a2172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 26/28] fix: validate the cards given by the iterator

---
 src/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index 20c97fb..f3e32bf 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -35,7 +35,10 @@ impl<'s> VcardIterator<'s> {
                 skip_card(&mut lex);
             }
             self.offset = lex.span().end;
-            return Some(result.map(|(card, _)| card));
+            return Some(result.and_then(|(card, _)| {
+                card.validate()?;
+                Ok(card)
+            }));
         }
         None
     }
-- 
2.43.0


From 1072c4f53e972cbbb440204084890bed55dfb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 27/28] fix: fold clusters that do not fit on a line

---
 src/vcard.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vcard.rs b/src/vcard.rs
index f9a0858..95fff14 100644
--- a/src/vcard.rs
+++ b/src/vcard.rs
@@ -490,15 +490,25 @@ fn fold_line(line: String, wrap_at: usize) -> String {
     use unicode_segmentation::UnicodeSegmentation;
     let mut length = 0;
     let mut folded_line = String::new();
-    for grapheme in UnicodeSegmentation::graphemes(&line[..], true) {
-        length += grapheme.len();
+    let mut push = |part: &str| {
+        length += part.len();
         if length > wrap_at {
             folded_line.push_str("\r\n ");
             // actual length of the next line
             // including the leading space
-            length = 1 + grapheme.len();
+            length = 1 + part.len();
+        }
+        folded_line.push_str(part);
+    };
+    for grapheme in UnicodeSegmentation::graphemes(&line[..], true) {
+        if grapheme.len() < wrap_at {
+            push(grapheme);
+        } else {
+            // Does not fit on any line as a whole
+            for c in grapheme.chars() {
+                push(c.encode_utf8(&mut [0; 4]));
+            }
         }
-        folded_line.push_str(grapheme);
     }
     folded_line
 }
-- 
2.43.0


From 17f2f14be4b11c33e5036ea7b45002385f60929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 28/28] fix: a vCard starts on a line of its own

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7802268..394f57f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,6 +164,14 @@ impl<'s> VcardParser<'s> {
         first: Option<LexResult<Token>>,
     ) -> Result<(Vcard, Range<usize>)> {
         self.assert_token(first.as_ref(), &[Token::Begin])?;
+        // A vCard must start on a line of its own
+        let before = &lex.source()[..lex.span().start];
+        if !before.is_empty() && !before.ends_with('\n') {
+            return Err(Error::IncorrectToken(format!(
+                "{:#?}",
+                Token::Begin
+            )));
+        }
         self.assert_token(lex.next().as_ref(), &[Token::NewLine])?;
 
         self.assert_token(lex.next().as_ref(), &[Token::Version])?;
-- 
2.43.0

