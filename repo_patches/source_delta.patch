From 4acc406e77d2c0b3ff6899e2325e9940941e4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 01/18] fix: print the variables of unnamed subscriptions,
 comma-separated

Subscription formatting wrote the variable definitions only for a named
subscription (losing them otherwise) and without a separator, unlike
queries and mutations.
---
 src/query/format.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 872dd3d..6cad181 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
-- 
2.43.0


From 6d12706c0ecde768d4ad5e3dc5a9c52a576d2cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 02/18] fix: decode the \b string escape as U+0008 (backspace)

It was decoded as U+0010.
---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index cafdd76..4479a6c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -236,7 +236,7 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
-- 
2.43.0


From 1e466a6265de4cc833fecd4a137b878a7b59104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 03/18] fix: count only spaces and tabs as block string
 indentation

Other Unicode white space (U+00A0, U+3000, ...) was counted as indentation
in bytes, so that cutting the common indent could panic in the middle of a
character, or remove content.
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4479a6c..555a8f4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -179,7 +179,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only spaces and tabs are white space here: they are one byte each,
+        // so removing a common indent never splits a character.
+        let indent = line.len() - line.trim_start_matches(&[' ', '\t'][..]).len();
         if indent == line.len() {
             continue;
         }
-- 
2.43.0


From c842374dc868d4befa6be622f21bcfb28b4bebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 04/18] fix: remove the indentation of blank block string lines
 shorter than the indent

The common indent is removed from every line but the first: a white space
only line shorter than it becomes empty, it does not keep its white space.
---
 src/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 555a8f4..f92b64f 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -208,8 +208,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // a blank line may be shorter than the indent
+                line.get(common_indent..).unwrap_or("")
             } else {
                 line
             }
-- 
2.43.0


From 8b29450b2d7a91c729ff2f72d8087b5cc21c2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 05/18] fix: print control characters as hexadecimal escapes,
 others as they are

A \u escape has four hexadecimal digits, but the code point was written in
decimal, so U+001F came back as U+0031. Characters above U+FFFF do not fit
the escape at all and need none.
---
 src/format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index de24163..7333620 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -129,7 +129,7 @@ impl<'a> Formatter<'a> {
         for c in s.chars() {
             match c {
                 '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
+                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
                 _ => has_nonprintable = true,
             }
         }
@@ -143,8 +143,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'..='\u{10FFFF}' => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04X}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
-- 
2.43.0


From 290fe5822e74623b59c9a0ce37e9cd4a3c386c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 06/18] fix: print as a block string only what a block string
 preserves

Block strings lose leading and trailing blank lines, common indentation,
white space in blank lines and carriage returns. Strings having those are
now printed as quoted strings, so that they are read back unchanged.
---
 src/format.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 7333620..939d222 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -124,16 +124,7 @@ impl<'a> Formatter<'a> {
     }
 
     pub fn write_quoted(&mut self, s: &str) {
-        let mut has_newline = false;
-        let mut has_nonprintable = false;
-        for c in s.chars() {
-            match c {
-                '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{10FFFF}' => {}
-                _ => has_nonprintable = true,
-            }
-        }
-        if !has_newline || has_nonprintable {
+        if !fits_block_string(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -153,7 +144,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -177,6 +168,22 @@ impl<'a> Formatter<'a> {
     }
 }
 
+/// Whether the string has several lines and is read back unchanged when it is
+/// written as an indented block string
+fn fits_block_string(s: &str) -> bool {
+    let is_blank = |line: &str| line.chars().all(|c| c == ' ' || c == '\t');
+    let printable = |c| matches!(c, '\n' | '\t' | '\u{0020}'..='\u{10FFFF}');
+
+    s.contains('\n')
+        && s.chars().all(printable)
+        // Leading and trailing blank lines are dropped
+        && !s.split('\n').next().map_or(true, is_blank)
+        && !s.rsplit('\n').next().map_or(true, is_blank)
+        // White space in a blank line, as any common indent, is dropped
+        && !s.split('\n').any(|line| !line.is_empty() && is_blank(line))
+        && s.split('\n').any(|line| !line.is_empty() && !line.starts_with(&[' ', '\t'][..]))
+}
+
 pub(crate) fn format_directives<'a, T>(dirs: &[Directive<'a, T>], f: &mut Formatter)
 where
     T: crate::common::Text<'a>,
-- 
2.43.0


From 07ae64d84d8f4ba6ebcd98a99ac78f34f371e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 07/18] fix: accept float exponents starting with 9

An off-by-one in the range check rejected 1e9 while accepting 1e8 and 1e10.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3721eb4..5581a77 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
-- 
2.43.0


From 7b56f8b9b46fcc572312cdd9054eec8f1660814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 08/18] fix: print floats that do not fit an integer as float
 literals

A large float was printed as a string of digits, which is an integer literal
that is out of range and fails to parse; an infinite one (1e400) was printed
as the name inf.
---
 src/query/format.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index 6cad181..dcf36e3 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -243,6 +243,19 @@ impl<'a, T: Text<'a>> Displayable for Type<'a, T> {
     }
 }
 
+fn float_literal(val: f64) -> String {
+    if val.is_infinite() {
+        // There is no literal for it other than one that is out of range
+        return String::from(if val > 0.0 { "1e999" } else { "-1e999" });
+    }
+    // Without a fraction this is read back as an integer, which has to fit i64
+    if val.abs() >= i64::MAX as f64 {
+        format!("{:e}", val)
+    } else {
+        format!("{}", val)
+    }
+}
+
 impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
     fn display(&self, f: &mut Formatter) {
         match *self {
@@ -251,7 +264,7 @@ impl<'a, T: Text<'a>> Displayable for Value<'a, T> {
                 f.write(name.as_ref());
             }
             Value::Int(ref num) => f.write(&format!("{}", num.0)),
-            Value::Float(val) => f.write(&format!("{}", val)),
+            Value::Float(val) => f.write(&float_literal(val)),
             Value::String(ref val) => f.write_quoted(val),
             Value::Boolean(true) => f.write("true"),
             Value::Boolean(false) => f.write("false"),
-- 
2.43.0


From 6d130ebbd6bff8315265b0e8daadb1890da01dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 09/18] fix: reject \u escapes having a plus sign among their
 four digits

"\u+041" was accepted as U+0041.
---
 src/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index f92b64f..debf6cf 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -263,7 +263,10 @@ fn unquote_string(s: &str) -> Result<String, Error<Token, Token>> {
 
                         // convert our hex string into a u32, then convert that into a char
                         match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {
-                            Ok(Some(unicode_char)) => res.push(unicode_char),
+                            // from_str_radix allows a sign, the escape does not
+                            Ok(Some(unicode_char)) if !temp_code_point.starts_with('+') => {
+                                res.push(unicode_char)
+                            }
                             _ => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     format_args!(
-- 
2.43.0


From bd8bd7614c458e9d72b767960a0874bef1e6f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 10/18] fix: count a CRLF after a comment as one line end

A comment ended at the CR, which counted a line, and the LF counted another,
so that positions were off by one line per comment in files with CRLF.
---
 src/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 5581a77..0168ee4 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -325,9 +325,12 @@ impl<'a> TokenStream<'a> {
                 }
                 //comment
                 '#' => {
-                    for (_, cur_char) in iter.by_ref() {
+                    while let Some((_, cur_char)) = iter.next() {
                         // TODO(tailhook) ensure SourceCharacter
-                        if cur_char == '\r' || cur_char == '\n' {
+                        // the CR of a CRLF does not end a line of its own
+                        if cur_char == '\n'
+                            || (cur_char == '\r' && !iter.as_str().starts_with('\n'))
+                        {
                             self.position.column = 1;
                             self.position.line += 1;
                             break;
-- 
2.43.0


From 2ff855185668b86d014f0472396d8fe29d4627ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 11/18] fix: accept interface extensions that only add
 interfaces

"extend interface A implements B" was rejected, unlike the same extension
of an object type.
---
 src/schema/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 263bfa4..62cee67 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -326,11 +326,11 @@ where
         parser(fields),
     )
         .flat_map(|(position, name, interfaces, directives, fields)| {
-            if directives.is_empty() && fields.is_empty() {
+            if interfaces.is_empty() && directives.is_empty() && fields.is_empty() {
                 let mut e = Errors::empty(position);
                 e.add_error(Error::expected_static_message(
                     "Interface type extension should contain at least \
-                     one directive or field.",
+                     one interface, directive or field.",
                 ));
                 return Err(e);
             }
-- 
2.43.0


From dced946fc17f60a11f2f4ba0fcf96c06984a1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 12/18] fix: print the `on` of a directive definition having no
 locations

The parser accepts an empty location list but requires the `on`, so such a
definition was printed as something that does not parse.
---
 src/schema/format.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/schema/format.rs b/src/schema/format.rs
index 6ebc945..6b49d0c 100644
--- a/src/schema/format.rs
+++ b/src/schema/format.rs
@@ -462,17 +462,16 @@ where
         if self.repeatable {
             f.write(" repeatable");
         }
-        if !self.locations.is_empty() {
-            f.write(" on ");
-            let mut first = true;
-            for loc in &self.locations {
-                if first {
-                    first = false;
-                } else {
-                    f.write(" | ");
-                }
-                f.write(loc.as_str());
+        f.write(" on");
+        let mut first = true;
+        for loc in &self.locations {
+            if first {
+                first = false;
+            } else {
+                f.write(" |");
             }
+            f.write(" ");
+            f.write(loc.as_str());
         }
         f.endline();
     }
-- 
2.43.0


From 3214a5230a3f199f904f1f26ca577acbcecbaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 13/18] fix: end a number at a quote or a byte order mark

A string needs no space before it and a byte order mark is white space
between tokens, but after a number both were taken as part of it.
---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 0168ee4..22f1f70 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -228,7 +228,9 @@ impl<'a> TokenStream<'a> {
                     match cur_char {
                         // just scan for now, will validate later on
                         ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' | '"' | '\u{feff}' => {
+                            break idx
+                        }
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
-- 
2.43.0


From 7ae32d0c343a5886a7e7e9805ff4449187d43d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 14/18] fix: classify VARIABLE_DEFINITION as a query directive
 location

The specification lists it among the executable locations: variables are
defined in queries, not in schemas.
---
 src/schema/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schema/ast.rs b/src/schema/ast.rs
index db2908f..72ee2f5 100644
--- a/src/schema/ast.rs
+++ b/src/schema/ast.rs
@@ -472,10 +472,10 @@ impl DirectiveLocation {
         use self::DirectiveLocation::*;
         match *self {
             Query | Mutation | Subscription | Field | FragmentDefinition | FragmentSpread
-            | InlineFragment => true,
+            | InlineFragment | VariableDefinition => true,
 
             Schema | Scalar | Object | FieldDefinition | ArgumentDefinition | Interface | Union
-            | Enum | EnumValue | InputObject | InputFieldDefinition | VariableDefinition => false,
+            | Enum | EnumValue | InputObject | InputFieldDefinition => false,
         }
     }
 
-- 
2.43.0


From 747b07bd790014eb84283aea522a0bbbfa7eee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 15/18] fix: require digits after the sign of a float exponent

1e+ passed as a float token, so minify_query accepted it.
---
 src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 22f1f70..e06d822 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -109,7 +109,10 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first > '9') {
+    if first == '-' || first == '+' {
+        return check_dec(&value[1..]);
+    }
+    if first <= '0' || first > '9' {
         return false;
     }
 
-- 
2.43.0


From 619e79b45f527491c7b51de9964938ff8deecbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 16/18] fix: print floats from 2^53 on and negative zero as
 float literals

Their digits make an integer literal that is a rounded number (an i64, so it is
read back as another value), or zero without its sign.
---
 src/query/format.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/format.rs b/src/query/format.rs
index dcf36e3..2a3eacb 100644
--- a/src/query/format.rs
+++ b/src/query/format.rs
@@ -248,9 +248,12 @@ fn float_literal(val: f64) -> String {
         // There is no literal for it other than one that is out of range
         return String::from(if val > 0.0 { "1e999" } else { "-1e999" });
     }
-    // Without a fraction this is read back as an integer, which has to fit i64
-    if val.abs() >= i64::MAX as f64 {
+    // Without a fraction this is read back as an integer, which has to be the
+    // same number: from 2^53 on the digits printed are rounded ones
+    if val.abs() >= 9007199254740992.0 {
         format!("{:e}", val)
+    } else if val == 0.0 && val.is_sign_negative() {
+        String::from("-0.0")
     } else {
         format!("{}", val)
     }
-- 
2.43.0


From a4e55a94ee3e3e6218ac7c011c662127f7d9f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 17/18] fix: name the invalid token that follows a complete
 document

---
 src/helpers.rs        | 8 +++++++-
 src/query/grammar.rs  | 6 +++---
 src/schema/grammar.rs | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 5307092..95289b1 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use combine::error::Tracked;
 use combine::stream::easy::{Error, Errors, Info};
-use combine::{satisfy, ParseResult, Parser, StreamOnce};
+use combine::{eof, satisfy, ParseResult, Parser, StreamOnce};
 
 use crate::position::Pos;
 use crate::tokenizer::{Kind, Token, TokenStream};
@@ -30,6 +30,12 @@ pub struct Value<'a> {
     phantom: PhantomData<&'a u8>,
 }
 
+/// The end of the input; an invalid token there is reported as what it is,
+/// which `eof` alone does not do
+pub fn end_of_input<'a>() -> impl Parser<TokenStream<'a>, Output = ()> {
+    eof().or(satisfy(|_| false).map(|_| ()))
+}
+
 pub fn kind<'x>(kind: Kind) -> TokenMatch<'x> {
     TokenMatch {
         kind,
diff --git a/src/query/grammar.rs b/src/query/grammar.rs
index cf31bec..8e2ee24 100644
--- a/src/query/grammar.rs
+++ b/src/query/grammar.rs
@@ -1,9 +1,9 @@
-use combine::{eof, many1, optional, position, StdParseResult};
+use combine::{many1, optional, position, StdParseResult};
 use combine::{parser, Parser};
 
 use crate::common::Directive;
 use crate::common::{arguments, default_value, directives, parse_type};
-use crate::helpers::{ident, name, punct};
+use crate::helpers::{end_of_input, ident, name, punct};
 use crate::query::ast::*;
 use crate::query::error::ParseError;
 use crate::tokenizer::TokenStream;
@@ -257,7 +257,7 @@ where
     let mut tokens = TokenStream::new(s);
     let (doc, _) = many1(parser(definition))
         .map(|d| Document { definitions: d })
-        .skip(eof())
+        .skip(end_of_input())
         .parse_stream(&mut tokens)
         .into_result()
         .map_err(|e| e.into_inner().error)?;
diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 62cee67..9c7666e 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -1,11 +1,11 @@
 use combine::easy::{Error, Errors};
 use combine::error::StreamError;
 use combine::sep_by1;
-use combine::{choice, eof, many, many1, optional, position};
+use combine::{choice, many, many1, optional, position};
 use combine::{parser, Parser, StdParseResult};
 
 use crate::common::{default_value, directives, parse_type, string, Text};
-use crate::helpers::{ident, kind, name, punct};
+use crate::helpers::{end_of_input, ident, kind, name, punct};
 use crate::schema::ast::*;
 use crate::schema::error::ParseError;
 use crate::tokenizer::{Kind as T, Token, TokenStream};
@@ -694,7 +694,7 @@ where
     let mut tokens = TokenStream::new(s);
     let (doc, _) = many1(parser(definition))
         .map(|d| Document { definitions: d })
-        .skip(eof())
+        .skip(end_of_input())
         .parse_stream(&mut tokens)
         .into_result()
         .map_err(|e| e.into_inner().error)?;
-- 
2.43.0


From 2ca63b53d2fe802ee2e70cfdb002e8ace9d8ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 18/18] fix: report many unknown root operations in linear time

Adding an error compares it with all errors before, so a schema block with
64000 distinct unknown operations took 13 s to reject.
---
 src/schema/grammar.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/schema/grammar.rs b/src/schema/grammar.rs
index 9c7666e..48c3413 100644
--- a/src/schema/grammar.rs
+++ b/src/schema/grammar.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeSet;
+
 use combine::easy::{Error, Errors};
 use combine::error::StreamError;
 use combine::sep_by1;
@@ -29,6 +31,9 @@ where
                 let mut mutation = None;
                 let mut subscription = None;
                 let mut err = Errors::empty(position);
+                // Kept apart because `add_error` compares with every error before
+                let mut unknown = Vec::new();
+                let mut names = BTreeSet::new();
                 for (oper, type_name) in operations {
                     match oper.value {
                         "query" if query.is_some() => {
@@ -56,13 +61,18 @@ where
                             subscription = Some(type_name);
                         }
                         _ => {
-                            err.add_error(Error::unexpected_token(oper));
-                            err.add_error(Error::expected_static_message("query"));
-                            err.add_error(Error::expected_static_message("mutation"));
-                            err.add_error(Error::expected_static_message("subscription"));
+                            if names.insert(oper.value) {
+                                unknown.push(Error::unexpected_token(oper));
+                            }
                         }
                     }
                 }
+                if !unknown.is_empty() {
+                    err.errors.extend(unknown);
+                    err.add_error(Error::expected_static_message("query"));
+                    err.add_error(Error::expected_static_message("mutation"));
+                    err.add_error(Error::expected_static_message("subscription"));
+                }
                 if !err.errors.is_empty() {
                     return Err(err);
                 }
-- 
2.43.0

