From 5592a27438c60d78def7e0f97a4939a75001bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 01/18] fix: decode the \b string escape as backspace (U+0008)

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From 8bddc1adc11324d49f46fe65c7c7dcd8da098a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 02/18] fix: reject a plus sign among the hex digits of a \u
 escape

---
 src/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..5c5dd10 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -259,8 +259,11 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
                         }
 
                         // convert our hex string into a u32, then convert that into a char
+                        // (from_str_radix alone would allow a leading plus sign)
                         match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {
-                            Ok(Some(unicode_char)) => res.push(unicode_char),
+                            Ok(Some(unicode_char)) if !temp_code_point.starts_with('+') => {
+                                res.push(unicode_char)
+                            }
                             _ => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     format_args!(
-- 
2.43.0


From 12c2eca2d32b18ff1c69f87e3c822e0419960cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 03/18] fix: count only spaces and tabs as block string
 indentation

Unicode white space was counted in bytes, so that removing the common
indentation could panic inside a multi-byte character.
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 5c5dd10..d9026db 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only spaces and tabs are white space in the spec. Other Unicode spaces
+        // are content (and counting their bytes would split characters below).
+        let indent = line.len() - line.trim_start_matches(&[' ', '\t'][..]).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From e80ebb0fafd94b9f2edc007c768a427c985ce155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 04/18] fix: drop blanks of block string lines shorter than the
 common indent

---
 src/common.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index d9026db..4ab65df 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -208,10 +208,11 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
-            } else {
+            if idx == 0 {
                 line
+            } else {
+                // A blank line may be shorter than the indent: nothing remains.
+                line.get(common_indent..).unwrap_or("")
             }
         })
         // Handle escaped triple-quote (\""").
-- 
2.43.0


From f454ba828b94382ac42acf43055834cbc9a7c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 05/18] fix: end block string lines at a lone carriage return
 too

---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4ab65df..adc68a0 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -173,7 +173,9 @@ where
 
 fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>> {
     debug_assert!(src.starts_with("\"\"\"") && src.ends_with("\"\"\""));
-    let lines = src[3..src.len() - 3].lines();
+    // A line ends at LF, CRLF or a lone CR
+    let raw = src[3..src.len() - 3].replace("\r\n", "\n");
+    let lines = raw.split(&['\n', '\r'][..]);
 
     let mut common_indent = usize::MAX;
     let mut first_non_empty_line: Option<usize> = None;
-- 
2.43.0


From 4b535faed8801479aa742b55c57c16d282359c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 06/18] fix: reject a raw carriage return in a quoted string,
 as any line end

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..a3da11d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -281,7 +281,7 @@ impl<'a> TokenStream<'a> {
                                 self.off += idx + 1;
                                 return Ok((StringValue, idx + 1));
                             }
-                            '\n' => {
+                            '\n' | '\r' => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     "unterminated string value".to_string(),
                                 )));
-- 
2.43.0


From ff8e06a7d4e7695d61f59a8daa96dc755ff28773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 07/18] fix: count each line end once in positions

CRLF after a comment counted twice; a lone CR counted only after a comment.
---
 src/tokenizer.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index a3da11d..4a4ebe8 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -312,9 +312,11 @@ impl<'a> TokenStream<'a> {
                 None => break self.buf.len() - self.off,
             };
             match cur_char {
-                '\u{feff}' | '\r' => continue,
+                '\u{feff}' => continue,
+                // the line end is counted at the LF
+                '\r' if iter.as_str().starts_with('\n') => continue,
                 '\t' => self.position.column += 8,
-                '\n' => {
+                '\n' | '\r' => {
                     self.position.column = 1;
                     self.position.line += 1;
                 }
@@ -325,8 +327,12 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
+                        if cur_char == '\r' && iter.as_str().starts_with('\n') {
+                            // the line end is counted at the LF
+                            break;
+                        }
                         if cur_char == '\r' || cur_char == '\n' {
                             self.position.column = 1;
                             self.position.line += 1;
@@ -344,10 +350,12 @@ impl<'a> TokenStream<'a> {
     fn update_position(&mut self, len: usize) {
         let val = &self.buf[self.off..][..len];
         self.off += len;
-        let lines = val.as_bytes().iter().filter(|&&x| x == b'\n').count();
+        // a line ends at LF, CRLF or a lone CR
+        let crlfs = val.matches("\r\n").count();
+        let lines = val.matches(&['\n', '\r'][..]).count() - crlfs;
         self.position.line += lines;
         if lines > 0 {
-            let line_offset = val.rfind('\n').unwrap() + 1;
+            let line_offset = val.rfind(&['\n', '\r'][..]).unwrap() + 1;
             let num = val[line_offset..].chars().count();
             self.position.column = num + 1;
         } else {
-- 
2.43.0


From 205e92ddbfaae2bc90eb9931b99c6072c56bed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 08/18] fix: accept exponents starting with 9, reject a sign
 without digits

---
 src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 4a4ebe8..638f168 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,10 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first == '-' || first == '+' {
+        return check_dec(&value[1..]);
+    }
+    if first <= '0' || first > '9' {
         return false;
     }
 
-- 
2.43.0


From 7d53244a90ae5665e49c2875ba69a4aa9014061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 09/18] fix: end a number at any character that cannot continue
 it

A string, a minus sign or a byte-order mark directly after a number was
scanned as part of the number, which was then rejected.
---
 src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 638f168..05fe29e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -230,11 +230,11 @@ impl<'a> TokenStream<'a> {
                     };
                     match cur_char {
                         // just scan for now, will validate later on
-                        ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
-                        _ => {}
+                        '+' | '-' if exponent == Some(idx - 1) => {}
+                        '_' | 'a'..='z' | 'A'..='Z' | '0'..='9' => {}
+                        _ => break idx,
                     }
                 };
 
-- 
2.43.0


From 73f16a324b1bd1cb4abaf6e54f040dabd7512cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 10/18] fix: print control characters as hexadecimal escapes,
 others as they are

Code points were printed in decimal, and the ones beyond U+FFFF with more
than the four digits an escape has.
---
 src/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..61b7cf0 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -143,8 +143,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\0'..='\u{001F}' => write!(&mut self.buf, "\\u{:04X}", c as u32).unwrap(),
+                    _ => self.buf.push(c),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From e46a61e5b6b1dfa74fb2e0dc423bf68448ced70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 11/18] fix: print a string in block form only if it reads back
 unchanged

Leading and trailing blank lines, common indentation, white space alone on a
line and carriage returns were lost.
---
 src/format.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 61b7cf0..54d337e 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -124,16 +124,7 @@ impl<'a> Formatter<'a> {
     }
 
     pub fn write_quoted(&mut self, s: &str) {
-        let mut has_newline = false;
-        let mut has_nonprintable = false;
-        for c in s.chars() {
-            match c {
-                '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
-                _ => has_nonprintable = true,
-            }
-        }
-        if !has_newline || has_nonprintable {
+        if !is_block_printable(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +144,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -177,6 +168,23 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Whether a string can be printed as a block string, i.e. parsing the block
+/// with the added indent gives the same string back
+fn is_block_printable(s: &str) -> bool {
+    let is_blank = |line: &str| line.chars().all(|c| c == ' ' || c == '\t');
+    let mut lines = s.split('\n');
+    // blank lines at the start and at the end would be dropped
+    s.contains('\n')
+        && !lines.next().map_or(true, is_blank)
+        && !lines.next_back().map_or(true, is_blank)
+        // and so would be white space alone on a line
+        && !s.split('\n').any(|line| !line.is_empty() && is_blank(line))
+        // and indentation common to all lines
+        && s.split('\n').any(|line| !line.is_empty() && !line.starts_with(&[' ', '\t'][..]))
+        // there are no escapes for these in a block string (CR would end a line)
+        && s.chars().all(|c| c == '\n' || c == '\t' || c >= '\u{0020}')
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: crate::common::Text<'a>,
-- 
2.43.0


From a084dba4e65612ebf7ab75ebf18d640508dfbe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 12/18] fix: print the variables of an unnamed subscription,
 and commas between them

---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From 9712e933345543d92d43e9ede207f7bbbb16d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 13/18] fix: accept an interface extension that only implements
 interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From a1ddff164559282eeced57dd69fc9c101f0bdd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 14/18] fix: print 'on' for a directive definition without
 locations

The parser accepts that, but did not accept the printed text.
---
 src/schema/format.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/schema/format.rs b/src/schema/format.rs
index 6ebc945..87f0e8f 100644
--- a/src/schema/format.rs
+++ b/src/schema/format.rs
@@ -462,17 +462,17 @@ where
         if self.repeatable {
             f.write(" repeatable");
         }
-        if !self.locations.is_empty() {
-            f.write(" on ");
-            let mut first = true;
-            for loc in &self.locations {
-                if first {
-                    first = false;
-                } else {
-                    f.write(" | ");
-                }
-                f.write(loc.as_str());
+        // the parser needs the keyword even if there are no locations
+        f.write(" on");
+        let mut first = true;
+        for loc in &self.locations {
+            if first {
+                first = false;
+                f.write(" ");
+            } else {
+                f.write(" | ");
             }
+            f.write(loc.as_str());
         }
         f.endline();
     }
-- 
2.43.0


From 562883751b778bb7e133b19b08a8074cd3468a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 15/18] fix: print infinite floats and floats beyond the
 integer range as floats

They were printed as the name 'inf' and as integers that are out of range.
---
 src/query/format.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..f93ec2e 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -251,7 +251,17 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            // literals that overflow are read as infinity
+            Value::Float(val) if val == f64::INFINITY => f.write("1e999"),
+            Value::Float(val) if val == f64::NEG_INFINITY => f.write("-1e999"),
+            Value::Float(val) => {
+                let text = format!("{}", val);
+                f.write(&text);
+                // would be an integer literal, and one that is out of range
+                if val.fract() == 0.0 && text.parse::<i64>().is_err() {
+                    f.write(".0");
+                }
+            }
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From d319ee5612be242e871f0a0d1a846938c93fdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 16/18] fix: keep a space between a number and '...' when
 minifying

---
 src/query/minify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/minify.rs b/src/query/minify.rs
index c2d44a7..88db5f8 100644
--- a/src/query/minify.rs
+++ b/src/query/minify.rs
@@ -11,6 +11,7 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
     let mut bits: Vec<&str> = Vec::new();
     let mut stream = TokenStream::new(source.as_str());
     let mut prev_was_punctuator = false;
+    let mut prev_was_number = false;
 
     loop {
         match stream.uncons() {
@@ -18,12 +19,16 @@ pub fn minify_query(source: String) -> Result<String, MinifyError> {
                 let token: Token = x;
                 let is_non_punctuator = token.kind != Kind::Punctuator;
 
-                if prev_was_punctuator && is_non_punctuator {
+                // a number can't be followed by a dot
+                if prev_was_punctuator && is_non_punctuator
+                    || prev_was_number && token.value == "..."
+                {
                     bits.push(" ");
                 }
 
                 bits.push(token.value);
                 prev_was_punctuator = is_non_punctuator;
+                prev_was_number = matches!(token.kind, Kind::IntValue | Kind::FloatValue);
             }
             Err(ref e) if e == &combine::easy::Error::end_of_input() => break,
             Err(e) => return Err(MinifyError(e.to_string())),
-- 
2.43.0


From 8e373e39bb00acce169e4558e566ece3f747fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 17/18] fix: classify the VARIABLE_DEFINITION directive
 location as executable

---
 src/schema/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/ast.rs b/src/schema/ast.rs
index db2908f..72ee2f5 100644
--- a/src/schema/ast.rs
+++ b/src/schema/ast.rs
@@ -472,10 +472,10 @@ impl DirectiveLocation {
         use self::DirectiveLocation::*;
         match *self {
             Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread
-            | InlineFragment => true,
+            | InlineFragment | VariableDefinition => true,
 
             Schema | Scalar | Object | FieldDefinition | ArgumentDefinition | Interface | Union
-            | Enum | EnumValue | InputObject | InputFieldDefinition | VariableDefinition => false,
+            | Enum | EnumValue | InputObject | InputFieldDefinition => false,
         }
     }
 
-- 
2.43.0


From 4253a7c2552a31acef6a7461add5ba6359f04b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 18/18] fix: report unknown schema operations in linear time

---
 src/schema/grammar.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 62cee67..b555cba 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use combine::easy::{Error, Errors};
 use combine::error::StreamError;
 use combine::sep_by1;
@@ -29,40 +31,55 @@ where
                 let mut mutation = None;
                 let mut subscription = None;
                 let mut err = Errors::empty(position);
+                // names already complained about; `add_error` would instead
+                // compare each error with all the ones before it
+                let mut reported = HashSet::new();
+                let mut unknown = false;
                 for (oper, type_name) in operations {
                     match oper.value {
                         "query" if query.is_some() => {
-                            err.add_error(Error::unexpected_static_message(
-                                "duplicate `query` operation",
-                            ));
+                            if reported.insert(oper.value) {
+                                err.errors.push(Error::unexpected_static_message(
+                                    "duplicate `query` operation",
+                                ));
+                            }
                         }
                         "query" => {
                             query = Some(type_name);
                         }
                         "mutation" if mutation.is_some() => {
-                            err.add_error(Error::unexpected_static_message(
-                                "duplicate `mutation` operation",
-                            ));
+                            if reported.insert(oper.value) {
+                                err.errors.push(Error::unexpected_static_message(
+                                    "duplicate `mutation` operation",
+                                ));
+                            }
                         }
                         "mutation" => {
                             mutation = Some(type_name);
                         }
                         "subscription" if subscription.is_some() => {
-                            err.add_error(Error::unexpected_static_message(
-                                "duplicate `subscription` operation",
-                            ));
+                            if reported.insert(oper.value) {
+                                err.errors.push(Error::unexpected_static_message(
+                                    "duplicate `subscription` operation",
+                                ));
+                            }
                         }
                         "subscription" => {
                             subscription = Some(type_name);
                         }
                         _ => {
-                            err.add_error(Error::unexpected_token(oper));
-                            err.add_error(Error::expected_static_message("query"));
-                            err.add_error(Error::expected_static_message("mutation"));
-                            err.add_error(Error::expected_static_message("subscription"));
+                            unknown = true;
+                            if reported.insert(oper.value) {
+                                err.errors.push(Error::unexpected_token(oper));
+                            }
                         }
                     }
                 }
+                if unknown {
+                    err.add_error(Error::expected_static_message("query"));
+                    err.add_error(Error::expected_static_message("mutation"));
+                    err.add_error(Error::expected_static_message("subscription"));
+                }
                 if !err.errors.is_empty() {
                     return Err(err);
                 }
-- 
2.43.0

