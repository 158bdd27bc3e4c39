From eff385a216d18ee75e51e0468640dba5b81c9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 01/19] fix: print the variables of anonymous subscriptions,
 separated like those of queries

---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From e5acc493858a2532733a94c3171d134d12b3506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 02/19] fix: \b in a string literal denotes U+0008

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From b7f53c51dc6af686be9a1d71cb2ec8ac61798e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 03/19] fix: \u takes hexadecimal digits only, not a sign

---
 src/common.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..df5c96b 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -245,7 +245,18 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
                         temp_code_point.clear();
                         for _ in 0..4 {
                             match chars.next() {
-                                Some(inner_c) => temp_code_point.push(inner_c),
+                                Some(inner_c) if inner_c.is_ascii_hexdigit() => {
+                                    temp_code_point.push(inner_c)
+                                }
+                                Some(inner_c) => {
+                                    return Err(Error::Unexpected(Info::Owned(
+                                        format_args!(
+                                            "\\u must have 4 hexadecimal digits after it, found {:?}",
+                                            inner_c
+                                        )
+                                        .to_string(),
+                                    )))
+                                }
                                 None => {
                                     return Err(Error::Unexpected(Info::Owned(
                                         format_args!(
-- 
2.43.0


From 019e576756e0adb1dbfb8af0d62d8001a57e51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 04/19] fix: only spaces and tabs indent a block string

---
 src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index df5c96b..c85c72f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,8 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // only spaces and tabs are GraphQL white space
+        let indent = line.len() - line.trim_start_matches([' ', '\t']).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From 9eda70e2f514227bb788d057afaecb0dd56cebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 05/19] fix: accept unsigned exponents that start with 9

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..5581a77 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
-- 
2.43.0


From c16443dda9471436dee9f8ec86b02b1a218d9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 06/19] fix: an exponent needs a digit after its sign

---
 src/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5581a77..c1583c4 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -113,7 +113,8 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
 
-    value[1..].chars().all(|x| x.is_ascii_digit())
+    // a sign is not a digit
+    (first.is_ascii_digit() || value.len() > 1) && value[1..].chars().all(|x| x.is_ascii_digit())
 }
 
 fn check_float(value: &str, exponent: Option<usize>, real: Option<usize>) -> bool {
-- 
2.43.0


From 22827df89bf1be686d24ecd3517d37fdf7351adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 07/19] fix: a quote or a byte order mark ends a number

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c1583c4..458c5b6 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -229,7 +229,7 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => break idx,
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From 196767e3a7a66e1e7304edd252a7be83f752148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 08/19] fix: print `on` for a directive definition without
 locations

---
 src/schema/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schema/format.rs b/src/schema/format.rs
index 6ebc945..da6c618 100644
--- a/src/schema/format.rs
+++ b/src/schema/format.rs
@@ -462,8 +462,9 @@ where
         if self.repeatable {
             f.write(" repeatable");
         }
+        f.write(" on");
         if !self.locations.is_empty() {
-            f.write(" on ");
+            f.write(" ");
             let mut first = true;
             for loc in &self.locations {
                 if first {
-- 
2.43.0


From d2490b58158845c2ec2cf51ccc51c3210e939bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 09/19] fix: an interface extension may add only interfaces

---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From d46f7fe8cecbf45d1b7c85c2208b33bf83652168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 10/19] fix: count one line for a comment that ends with CR LF

---
 src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 458c5b6..eeccdcd 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,8 +326,12 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
+                        if cur_char == '\r' && iter.as_str().starts_with('\n') {
+                            // the line feed ends the line
+                            continue;
+                        }
                         if cur_char == '\r' || cur_char == '\n' {
                             self.position.column = 1;
                             self.position.line += 1;
-- 
2.43.0


From 868594471c0ff89813db6f6ea8fdfd7d97e7f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 11/19] fix: deep nesting with a wide indentation does not
 overflow

---
 src/format.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..3536a9d 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -7,7 +7,7 @@ use crate::common::Directive;
 pub(crate) struct Formatter<'a> {
     buf: String,
     style: &'a Style,
-    indent: u32,
+    indent: usize,
 }
 
 /// A configuration of formatting style
@@ -151,7 +151,7 @@ impl<'a> Formatter<'a> {
         } else {
             self.buf.push_str(r#"""""#);
             self.endline();
-            self.indent += self.style.indent;
+            self.indent += self.style.indent as usize;
             for line in s.lines() {
                 if !line.trim().is_empty() {
                     self.indent();
@@ -159,20 +159,20 @@ impl<'a> Formatter<'a> {
                 }
                 self.endline();
             }
-            self.indent -= self.style.indent;
+            self.indent -= self.style.indent as usize;
             self.indent();
             self.buf.push_str(r#"""""#);
         }
     }
 
     fn inc_indent(&mut self) {
-        self.indent += self.style.indent;
+        self.indent += self.style.indent as usize;
     }
 
     fn dec_indent(&mut self) {
         self.indent = self
             .indent
-            .checked_sub(self.style.indent)
+            .checked_sub(self.style.indent as usize)
             .expect("negative indent");
     }
 }
-- 
2.43.0


From d9460a8a6e42c9dbdbc11a7cf0d2d147fe705199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 12/19] fix: reject float literals that no finite double
 represents

---
 src/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index c85c72f..f971ea7 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -165,7 +165,11 @@ where
     S: Text<'a>,
 {
     kind(T::FloatValue)
-        .and_then(|tok| tok.value.parse())
+        .and_then(|tok| match tok.value.parse::<f64>() {
+            Ok(val) if val.is_finite() => Ok(val),
+            Ok(_) => Err(Error::Unexpected(Info::Static("float out of range"))),
+            Err(e) => Err(Error::from(e)),
+        })
         .map(Value::Float)
         .parse_stream(input)
         .into_result()
-- 
2.43.0


From 9c9c8a7983c50d222ae8a34e9fadec65a5407a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 13/19] fix: print large floats so that they are read back as
 floats

---
 src/query/format.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..3800032 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -251,7 +251,9 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            Value::Float(val) if val.abs() < 1e16 => f.write(&format!("{}", val)),
+            // all digits of a larger number would read as an integer
+            Value::Float(val) => f.write(&format!("{:?}", val)),
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From 5b44d401620a631eba024da374343041af995b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 14/19] fix: VARIABLE_DEFINITION is an executable directive
 location

---
 src/schema/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/ast.rs b/src/schema/ast.rs
index db2908f..72ee2f5 100644
--- a/src/schema/ast.rs
+++ b/src/schema/ast.rs
@@ -472,10 +472,10 @@ impl DirectiveLocation {
         use self::DirectiveLocation::*;
         match *self {
             Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread
-            | InlineFragment => true,
+            | InlineFragment | VariableDefinition => true,
 
             Schema | Scalar | Object | FieldDefinition | ArgumentDefinition | Interface | Union
-            | Enum | EnumValue | InputObject | InputFieldDefinition | VariableDefinition => false,
+            | Enum | EnumValue | InputObject | InputFieldDefinition => false,
         }
     }
 
-- 
2.43.0


From b2ee61823a13da90666438cb3eae787ac20298d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 15/19] fix: escape control characters in hexadecimal, and
 print others as they are

---
 src/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 3536a9d..d5c5348 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -143,8 +143,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'.. => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From f127722aabfee0bc5bd80fb748a1b2e5e3bd7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 16/19] fix: print a string in block form only if that form is
 read back as the same string

---
 src/format.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index d5c5348..9b9fdb5 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -126,14 +126,33 @@ impl<'a> Formatter<'a> {
     pub fn write_quoted(&mut self, s: &str) {
         let mut has_newline = false;
         let mut has_nonprintable = false;
+        // The block form would lose the indentation that all lines share,
+        // blank lines at both ends and white space in other blank lines
+        let mut all_indented = true;
+        let mut loses_blank = false;
+        let mut line_start = true;
+        let mut line_blank = true;
         for c in s.chars() {
             match c {
-                '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
+                '\n' => {
+                    if line_blank && !(has_newline && line_start) {
+                        loses_blank = true;
+                    }
+                    has_newline = true;
+                    line_blank = true;
+                }
+                '\t' | ' ' => {}
+                '\u{0021}'.. => {
+                    if line_start {
+                        all_indented = false;
+                    }
+                    line_blank = false;
+                }
                 _ => has_nonprintable = true,
             }
+            line_start = c == '\n';
         }
-        if !has_newline || has_nonprintable {
+        if !has_newline || has_nonprintable || all_indented || loses_blank || line_blank {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +172,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent as usize;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
-- 
2.43.0


From 6671b0ed3e1cf04724608e9a7c4ea98c0f9d8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 17/19] fix: a carriage return ends a line, so it cannot stand
 in a quoted string

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index eeccdcd..2f18b24 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -282,7 +282,7 @@ impl<'a> TokenStream<'a> {
                                 self.off += idx + 1;
                                 return Ok((StringValue, idx + 1));
                             }
-                            '\n' => {
+                            '\n' | '\r' => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     "unterminated string value".to_string(),
                                 )));
-- 
2.43.0


From 15a8cc978b96b0efca41574a159df6e0c154fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 18/19] fix: a minus sign ends a number unless it is the
 exponent's sign

---
 src/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 2f18b24..274579f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -232,6 +232,9 @@ impl<'a> TokenStream<'a> {
                         | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => break idx,
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
+                        // a sign inside a number only follows the exponent
+                        // letter, anywhere else it starts the next number
+                        '-' if exponent != Some(idx - 1) => break idx,
                         _ => {}
                     }
                 };
-- 
2.43.0


From 326d0d4cd5ada93c51474c843b93a886a1e2fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 19/19] fix: a blank line shorter than the common indentation
 of a block string becomes an empty line

---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index f971ea7..f9459fa 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -211,8 +211,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // a blank line may be shorter than the common indentation
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0

