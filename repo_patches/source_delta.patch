From 2a382afaabd5ca6760d219487a6d7e32763a40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 01/35] fix: treat U+007F (Delete) as a disallowed literal code
 point

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..1d5a85e 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1577,6 +1577,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From 28b268335c75bd0239fd676c261883cb59897c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 02/35] fix: let slashdashed nodes be terminated, and require
 nodes to be terminated before trailing slashdashed nodes

---
 src/v2_parser.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1d5a85e..05819f5 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,7 +280,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -292,11 +292,16 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     )
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let terminated = opt(node_terminator).parse_next(input)?.is_some();
+    // Only a terminated node can be followed by anything else.
+    let trailing = if ns.is_empty() || terminated {
+        repeat(0.., alt((line_space.void(), slashdashed_node)))
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    } else {
+        ""
+    };
 
     // If there is a node, let it have the leading format
     // This gives more consistent behavior
@@ -327,7 +332,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -338,6 +343,18 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
     Ok(nd)
 }
 
+/// A slashdashed node is still a node: it has to be terminated like one, and
+/// its terminator goes away along with it.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (
+        slashdash,
+        base_node,
+        alt((node_terminator, peek(alt((eof.void(), "}".void()))))),
+    )
+        .void()
+        .parse_next(input)
+}
+
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     trace("children closing check", not(alt(("}".void(), eof.void())))).parse_next(input)?;
     let _start = input.checkpoint();
-- 
2.43.0


From 5b7c9ca2e1e9b28604cc8666726e0a8af836274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 03/35] fix: reject single-line raw strings that start with a
 triple quote, accept multi-line raw strings that are just a quote

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 05819f5..3639fe0 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1380,7 +1380,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && (body == "\"" || body.starts_with("\"\"")) {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From 8c4fc0e426514528e8cc915a5c36702730e478c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 04/35] fix: do not limit the digits of a float to what fits in
 an i128

---
 src/v2_parser.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3639fe0..1e00196 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1784,27 +1784,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, digits),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, digits),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1881,6 +1881,16 @@ fn decimal_test() {
     assert!(decimal::<i128>.parse(new_input("1234a")).is_err());
 }
 
+/// `integer := digit (digit | '_')*`, with no limit on its magnitude
+fn digits(input: &mut Input<'_>) -> PResult<()> {
+    (
+        digit1,
+        take_while(0.., |c: char| AsChar::is_dec_digit(c) || c == '_'),
+    )
+        .void()
+        .parse_next(input)
+}
+
 /// `integer := digit (digit | '_')*`
 fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     (
-- 
2.43.0


From 368e14bd694d7540b5da0759d0baee8f0a796f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 05/35] fix: parse the smallest i128 (apply the sign before
 converting digits)

---
 src/v2_parser.rs | 124 +++++++++++------------------------------------
 1 file changed, 29 insertions(+), 95 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1e00196..6735d47 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1859,17 +1844,9 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    udecimal::<T>(input, if positive { "" } else { "-" })
 }
 
 #[cfg(test)]
@@ -1892,7 +1869,7 @@ fn digits(input: &mut Input<'_>) -> PResult<()> {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn udecimal<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     (
         digit1,
         repeat(
@@ -1901,26 +1878,21 @@ fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     )
         .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
+            T::from_str_radix(
+                &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+                10,
+            )
         })
         .parse_next(input)
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    uhex::<T>(input, if positive { "" } else { "-" })
 }
 
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uhex<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0x", "0X")).parse_next(input)?;
     cut_err((
         hex_digit1,
@@ -1930,7 +1902,10 @@ fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            16,
+        )
     })
     .context(cx().lbl("hexadecimal"))
     .parse_next(input)
@@ -1963,20 +1938,12 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    uoctal::<T>(input, if positive { "" } else { "-" })
 }
 
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uoctal<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0o", "0O")).parse_next(input)?;
     cut_err((
         oct_digit1,
@@ -1986,7 +1953,10 @@ fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
         ),
     ))
     .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
+        T::from_str_radix(
+            &format!("{sign}{l}{}", str::replace(&r.join(""), "_", "")),
+            8,
+        )
     })
     .context(cx().lbl("octal"))
     .parse_next(input)
@@ -2002,25 +1972,20 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
-        .parse_next(input)
+    ubinary::<T>(input, if positive { "" } else { "-" })
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn ubinary<T: FromStrRadix>(input: &mut Input<'_>, sign: &str) -> PResult<T> {
     alt(("0b", "0B")).parse_next(input)?;
     cut_err(
         (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
-            move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
+            |(x, xs): (&str, Vec<&str>)| {
+                T::from_str_radix(
+                    &format!("{sign}{x}{}", str::replace(&xs.join(""), "_", "")),
+                    2,
+                )
             },
         ),
     )
@@ -2077,34 +2042,6 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
-}
-
 trait ParseFloat {
     fn parse_float(input: &str) -> Result<Self, ParseFloatError>
     where
@@ -2122,9 +2059,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From fb234f95f95647d41906749223365c9c0d2bf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 06/35] fix: print the whitespace around node type annotations
 and after child blocks

---
 src/node.rs      | 19 +++++++++++++++++--
 src/v2_parser.rs |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..e6d40a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 6735d47..09f9b44 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -405,7 +405,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
-- 
2.43.0


From 0e6bfe8c79611e73888678e374feb3a8e9ed1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 07/35] fix: keep nodes without formatting apart when printing
 a document

---
 src/document.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 300f176..8f35e79 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -543,6 +543,11 @@ impl KdlDocument {
         }
         for node in &self.nodes {
             node.stringify(f, indent)?;
+            if node.format().is_none() {
+                // Without formatting of its own, a node still has to be
+                // separated from whatever follows it.
+                writeln!(f)?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
-- 
2.43.0


From 67bf42188d6ecbe4fc7b8733c60452b0e472dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 08/35] fix: escape newlines and disallowed code points when
 printing strings

---
 src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..d8d1f44 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -191,6 +191,12 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // These can't be written literally in (single-line) strings.
+                    c if crate::v2_parser::is_disallowed_unicode(c)
+                        || crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) =>
+                    {
+                        write!(f, "\\u{{{:x}}}", c as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 4010390f5c4f2e574fb1d1b9211609eac20f5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 09/35] fix: quote strings that are a sign and a dot followed
 by a digit

---
 src/value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index d8d1f44..a8e30b9 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,13 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
+    // Anything that starts like a number can't be a plain identifier.
+    let number_start = ident.strip_prefix(['-', '+']).unwrap_or(ident);
+    let number_start = number_start.strip_prefix('.').unwrap_or(number_start);
     ident
         .find(crate::v2_parser::is_disallowed_ident_char)
         .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+        && !number_start.starts_with(|c: char| c.is_ascii_digit())
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
-- 
2.43.0


From 8a173b4c11c82a3f7d403340ee6dc2c551b29060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 10/35] fix: clear the format of node type annotations
 recursively

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index e6d40a6..735ef10 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -141,6 +141,9 @@ impl KdlNode {
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
         self.name.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
         }
-- 
2.43.0


From 221ea1b849d840af02e739a1a572779b08829c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 11/35] fix: keep end-of-line comments, the BOM and escaped
 newlines in place when auto-formatting

---
 src/document.rs |  7 +++++++
 src/fmt.rs      | 21 +++++++++++++++++++++
 src/node.rs     | 10 +++++++++-
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 8f35e79..92e87fd 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -252,7 +252,14 @@ impl KdlDocument {
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
+            let has_bom = leading.starts_with('\u{FEFF}');
+            if has_bom {
+                leading.drain(..'\u{FEFF}'.len_utf8());
+            }
             crate::fmt::autoformat_leading(leading, config);
+            if has_bom && !config.no_comments {
+                leading.insert(0, '\u{FEFF}');
+            }
         }
         let mut has_nodes = false;
         for node in &mut self.nodes {
diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..e709604 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -111,11 +111,25 @@ impl<'a> FormatConfigBuilder<'a> {
     }
 }
 
+/// Whether this line is continued on the next one.
+pub(crate) fn ends_in_escline(line: &str) -> bool {
+    let line = line.trim();
+    match line.rsplit_once('\\') {
+        Some((_, after)) if !line.starts_with("//") => {
+            let same_line = !crate::v2_parser::NEWLINES.iter().any(|nl| after.contains(nl));
+            let after = after.trim_start();
+            same_line && (after.is_empty() || after.starts_with("//") || after.starts_with("/*"))
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
     let mut result = String::new();
     if !config.no_comments {
         let input = leading.trim();
         if !input.is_empty() {
+            let mut escaped = false;
             for line in input.lines() {
                 let trimmed = line.trim();
                 if !trimmed.is_empty() {
@@ -123,7 +137,14 @@ pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>
                         result.push_str(config.indent);
                     }
                     writeln!(result, "{trimmed}").unwrap();
+                } else if escaped {
+                    // This newline is what terminates a slashdashed node.
+                    result.push('\n');
                 }
+                escaped = ends_in_escline(trimmed);
+            }
+            if escaped {
+                result.push('\n');
             }
         }
     }
diff --git a/src/node.rs b/src/node.rs
index 735ef10..b4c043b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -296,7 +296,15 @@ impl KdlNode {
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
             *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
+            let end = before_terminator.trim_end().len();
+            if !crate::fmt::ends_in_escline(before_terminator.lines().last().unwrap_or("")) {
+                // The terminator comes with a newline already.
+                before_terminator.truncate(end);
+            }
+            if terminator.starts_with("//") && !config.no_comments {
+                before_terminator.push(' ');
+                *terminator = format!("{}\n", terminator.trim_end());
+            } else if !terminator.starts_with('\n') {
                 *terminator = "\n".into();
             }
             if let Some(c) = trailing.chars().next()
-- 
2.43.0


From fb5276337b918e0ab45a9af33a54fece25d791d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 12/35] fix: keep nodes apart when editing documents whose last
 node, line or slashdash was ended by the end of the input

---
 src/document.rs  | 26 ++++++++++++++---------
 src/fmt.rs       | 30 +++++++++++++++++++++------
 src/node.rs      | 54 ++++++++++++++++++++++++++++++++++++++++++++++--
 src/v2_parser.rs |  5 +++++
 4 files changed, 97 insertions(+), 18 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 92e87fd..dcc68ee 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -545,20 +545,26 @@ impl KdlDocument {
         f: &mut std::fmt::Formatter<'_>,
         indent: usize,
     ) -> std::fmt::Result {
-        if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
-            write!(f, "{leading}")?;
-        }
-        for node in &self.nodes {
-            node.stringify(f, indent)?;
-            if node.format().is_none() {
-                // Without formatting of its own, a node still has to be
-                // separated from whatever follows it.
+        let (leading, trailing) = self
+            .format()
+            .map(|f| (f.leading.as_str(), f.trailing.as_str()))
+            .unwrap_or_default();
+        write!(f, "{leading}")?;
+        if !self.nodes.is_empty() {
+            // Slashdashed nodes have to be terminated, too.
+            if crate::fmt::is_open(leading) || leading.contains("/-") {
+                writeln!(f)?;
+            }
+            if crate::fmt::open_escline(leading) {
                 writeln!(f)?;
             }
         }
-        if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
-            write!(f, "{trailing}")?;
+        for (i, node) in self.nodes.iter().enumerate() {
+            node.stringify(f, indent)?;
+            let followed = i + 1 < self.nodes.len() || !trailing.is_empty();
+            write!(f, "{}", node.separator(followed, indent > 0))?;
         }
+        write!(f, "{trailing}")?;
         Ok(())
     }
 }
diff --git a/src/fmt.rs b/src/fmt.rs
index e709604..33a4a0a 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -114,14 +114,32 @@ impl<'a> FormatConfigBuilder<'a> {
 /// Whether this line is continued on the next one.
 pub(crate) fn ends_in_escline(line: &str) -> bool {
     let line = line.trim();
-    match line.rsplit_once('\\') {
-        Some((_, after)) if !line.starts_with("//") => {
-            let same_line = !crate::v2_parser::NEWLINES.iter().any(|nl| after.contains(nl));
+    !line.starts_with("//")
+        && line.match_indices('\\').any(|(i, _)| {
+            let after = &line[i + 1..];
+            let same_line = !crate::v2_parser::NEWLINES
+                .iter()
+                .any(|nl| after.contains(nl));
             let after = after.trim_start();
             same_line && (after.is_empty() || after.starts_with("//") || after.starts_with("/*"))
-        }
-        _ => false,
-    }
+        })
+}
+
+/// Whether this ends a line.
+pub(crate) fn ends_line(decor: &str) -> bool {
+    crate::v2_parser::NEWLINES
+        .iter()
+        .any(|nl| decor.ends_with(nl))
+}
+
+/// Whether this ends in a line continuation that still lacks its newline.
+pub(crate) fn open_escline(decor: &str) -> bool {
+    !ends_line(decor) && ends_in_escline(decor.lines().last().unwrap_or(""))
+}
+
+/// Whether something in here would affect what is printed right after it.
+pub(crate) fn is_open(decor: &str) -> bool {
+    !ends_line(decor) && ["//", "\\"].iter().any(|s| decor.contains(s))
 }
 
 pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
diff --git a/src/node.rs b/src/node.rs
index b4c043b..6234a9d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -840,6 +840,38 @@ impl Display for KdlNode {
 }
 
 impl KdlNode {
+    /// What has to be printed after this node when its own formatting doesn't
+    /// separate it from what comes next.
+    pub(crate) fn separator(&self, followed: bool, in_block: bool) -> &'static str {
+        let Some(KdlNodeFormat {
+            before_terminator,
+            terminator,
+            trailing,
+            ..
+        }) = self.format()
+        else {
+            return "\n";
+        };
+        let terminated = terminator == ";" || crate::fmt::ends_line(terminator);
+        // The end of the input used to end this line continuation.
+        let escaped = terminator.is_empty() && crate::fmt::open_escline(before_terminator);
+        // A line continuation, or half of a line ending, that takes up the
+        // first newline.
+        let takes_newline = escaped || (terminator.is_empty() && before_terminator.ends_with('\r'));
+        if crate::fmt::ends_line(trailing) {
+            ""
+        } else if followed && takes_newline && trailing.is_empty() {
+            "\n\n"
+        } else if (followed && !terminated)
+            || ((followed || in_block) && crate::fmt::is_open(trailing))
+            || (in_block && (escaped || crate::fmt::is_open(terminator)))
+        {
+            "\n"
+        } else {
+            ""
+        }
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
@@ -872,11 +904,26 @@ impl KdlNode {
             write!(f, "{entry}")?;
             space_before_children = entry.format().is_none();
         }
+        // Slashdashed entries at the end of a node that had no children when
+        // it was parsed still have to come before the children it has now.
+        let slashdash_first = self.children.is_some()
+            && self.format().is_some_and(|f| {
+                f.before_terminator.contains("/-")
+                    && !v2_parser::is_after_children(&f.before_terminator)
+            });
         if let Some(children) = &self.children {
             if let Some(KdlNodeFormat {
-                before_children, ..
+                before_children,
+                before_terminator,
+                ..
             }) = self.format()
             {
+                if slashdash_first {
+                    write!(f, "{before_terminator}")?;
+                    if crate::fmt::open_escline(before_terminator) {
+                        writeln!(f)?;
+                    }
+                }
                 write!(f, "{before_children}")?;
             } else if space_before_children {
                 write!(f, " ")?;
@@ -898,7 +945,10 @@ impl KdlNode {
             ..
         }) = self.format()
         {
-            write!(f, "{before_terminator}{terminator}{trailing}")?;
+            if !slashdash_first {
+                write!(f, "{before_terminator}")?;
+            }
+            write!(f, "{terminator}{trailing}")?;
         }
         Ok(())
     }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 09f9b44..739047d 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -751,6 +751,11 @@ fn slashdashed_children(input: &mut Input<'_>) -> PResult<()> {
     .parse_next(input)
 }
 
+/// Whether this is something that can come after a children block.
+pub(crate) fn is_after_children(text: &str) -> bool {
+    try_parse((opt(slashdashed_children), node_space0), text).is_ok()
+}
+
 #[cfg(test)]
 #[test]
 fn around_children_test() {
-- 
2.43.0


From b81698f97c310ed274e0203bc9ad68debb8ac5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 13/35] fix: remove properties by the value of their name, like
 lookup does

---
 src/node.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6234a9d..1f50b9d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -715,12 +715,11 @@ impl KdlNode {
     fn remove_impl(&mut self, key: NodeKey) -> Option<KdlEntry> {
         match key {
             NodeKey::Key(key) => {
-                for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
-                        return Some(self.entries.remove(idx));
-                    }
-                }
-                None
+                let idx = self
+                    .entries
+                    .iter()
+                    .rposition(|e| e.name.as_ref().map(|i| i.value()) == Some(key.value()))?;
+                Some(self.entries.remove(idx))
             }
             NodeKey::Index(idx) => {
                 let mut current_idx = 0;
-- 
2.43.0


From 94c16b8cc0bdcc89d206911e1ef97bb996c662e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 14/35] fix: order float values consistently with their
 equality

---
 src/value.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index a8e30b9..e49e867 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
-use std::fmt::Display;
+use std::{cmp::Ordering, fmt::Display};
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,30 @@ impl PartialEq for KdlValue {
     }
 }
 
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            // Has to agree with equality.
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From 4f592e93743747ac49b0c0913f001a9cbcc07b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 15/35] fix: serialize every value to a document that reads
 back as it

Top-level struct variants lost all of their fields, and top-level tuple
variants became several nodes. Whether `false` and `None` may be left out
was decided by the first argument that was written, so `[false, true]`,
`Some(false)` and values of nested maps were lost. Fields renamed to `#n`,
`#args`, `#rest` and `#@p` were written in the order of the fields rather
than by index, and combinations which cannot be written were accepted.
`Some` of an empty sequence was written like `None`.
---
 src/se.rs | 540 ++++++++++++++++--------------------------------------
 1 file changed, 162 insertions(+), 378 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..1e3a3ed 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::{collections::BTreeMap, fmt};
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -106,7 +106,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     type SerializeSeq = SeqNodeSerializer<'a>;
     type SerializeTuple = SeqNodeSerializer<'a>;
     type SerializeTupleStruct = SeqNodeSerializer<'a>;
-    type SerializeTupleVariant = SeqNodeSerializer<'a>;
+    type SerializeTupleVariant = TupleVariantSerializer<'a>;
     type SerializeMap = MapNodeSerializer<'a>;
     type SerializeStruct = MapNodeSerializer<'a>;
     type SerializeStructVariant = StructVariantSerializer<'a>;
@@ -184,7 +184,14 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        value.serialize(&mut *self)?;
+        // An empty document is `None`.
+        if self.doc.nodes().is_empty() && to_kdl_value(value).is_err() {
+            return Err(ser::Error::custom(
+                "an optional value without any nodes cannot be represented as a KDL document",
+            ));
+        }
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
@@ -256,9 +263,9 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqNodeSerializer {
+        Ok(TupleVariantSerializer {
             nodes: &mut self.doc.nodes,
-            node_name: variant,
+            node: KdlNode::new(variant),
         })
     }
 
@@ -290,8 +297,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
             variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            fields: Default::default(),
         })
     }
 }
@@ -343,16 +349,24 @@ impl<'a> ser::SerializeTupleStruct for SeqNodeSerializer<'a> {
     }
 }
 
-impl<'a> ser::SerializeTupleVariant for SeqNodeSerializer<'a> {
+struct TupleVariantSerializer<'a> {
+    nodes: &'a mut Vec<KdlNode>,
+    node: KdlNode,
+}
+
+impl<'a> ser::SerializeTupleVariant for TupleVariantSerializer<'a> {
     type Ok = ();
     type Error = Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
+        let kdl_val = to_kdl_value(value)?;
+        self.node.entries_mut().push(KdlEntry::new(kdl_val));
+        Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
+        self.nodes.push(self.node);
+        Ok(())
     }
 }
 
@@ -396,14 +410,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !serialize_value_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -416,8 +424,7 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
     variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    fields: NodeFields,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -429,65 +436,128 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
+        self.fields.add(key, value)
+    }
+
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let mut node = KdlNode::new(self.variant);
+        let children = self.fields.finish(&mut node)?;
+        node.set_children(children.unwrap_or_default());
+        self.parent_nodes.push(node);
+        Ok(())
+    }
+}
+
+/// Collects the fields of a struct that is represented by a node.
+#[derive(Default)]
+struct NodeFields {
+    indexed: BTreeMap<usize, KdlValue>,
+    args: Option<Vec<KdlValue>>,
+    rest: Option<Vec<KdlValue>>,
+    props: Vec<KdlEntry>,
+    children: Option<KdlDocument>,
+}
+
+impl NodeFields {
+    fn add<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Error> {
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
+            self.props.push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
+            self.args = Some(collect_args(value)?);
         } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
-            };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
+            self.rest = Some(collect_args(value)?);
+        } else if let Some(idx) = key.strip_prefix('#') {
+            let idx: usize = idx.parse().map_err(|e| Error {
                 msg: format!("Failed to parse index rename {key}: {e}"),
             })?;
-            self.used_indices.insert(idx);
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
+            self.indexed.insert(idx, to_kdl_value(value)?);
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            let children = self.children.get_or_insert_default();
+            if !serialize_value_into_node(&mut child, value)? {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
-        Ok(())
+    /// Adds the arguments, in order, and properties to `node`. Returns the
+    /// child nodes.
+    fn finish(self, node: &mut KdlNode) -> Result<Option<KdlDocument>, Error> {
+        let args = if let Some(args) = self.args {
+            // These are all the arguments, so the others have to be among them.
+            let others = args.iter().enumerate();
+            let others = others.filter(|(idx, _)| !self.indexed.contains_key(idx));
+            let same_rest = self
+                .rest
+                .is_none_or(|rest| others.map(|(_, arg)| arg).eq(rest.iter()));
+            let same_indexed = self
+                .indexed
+                .iter()
+                .all(|(idx, arg)| args.get(*idx).unwrap_or(&KdlValue::Null) == arg);
+            if !same_rest || !same_indexed {
+                return Err(ser::Error::custom(
+                    "`#args` is different from the other arguments",
+                ));
+            }
+            args
+        } else {
+            // `#rest` goes between and after the indexed arguments.
+            let mut args = Vec::new();
+            let mut rest = self.rest.into_iter().flatten();
+            for (idx, arg) in self.indexed {
+                args.extend(rest.by_ref().take(idx - args.len()));
+                if args.len() == idx {
+                    args.push(arg);
+                } else if arg != KdlValue::Null {
+                    return Err(ser::Error::custom(format!(
+                        "argument #{idx} has no argument #{} before it",
+                        args.len(),
+                    )));
+                }
+            }
+            args.extend(rest);
+            args
+        };
+        for arg in args {
+            node.entries_mut().push(KdlEntry::new(arg));
+        }
+        node.entries_mut().extend(self.props);
+        Ok(self.children)
     }
 }
 
+/// Serializes a sequence (or a single value) of arguments.
+fn collect_args<T: ?Sized + Serialize>(value: &T) -> Result<Vec<KdlValue>, Error> {
+    let mut node = KdlNode::new("-");
+    let mut ser = ArgsSerializer { node: &mut node };
+    value.serialize(&mut ser)?;
+    Ok(node.entries().iter().map(|e| e.value().clone()).collect())
+}
+
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
+///
+/// Returns true if the value is a `false` or `None`, which struct fields
+/// represent by leaving out the node.
 fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
-) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+) -> Result<bool, Error> {
+    let mut omit = false;
+    let mut ser = NodeValueSerializer {
+        node,
+        omit: &mut omit,
+    };
+    value.serialize(&mut ser)?;
+    Ok(omit)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+    omit: &'a mut bool,
 }
 
 impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
@@ -499,10 +569,11 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     type SerializeTupleStruct = NodeSeqSerializer<'a>;
     type SerializeTupleVariant = NodeChildSeqSerializer<'a>;
     type SerializeMap = NodeChildMapSerializer<'a>;
-    type SerializeStruct = NodeChildMapSerializer<'a>;
+    type SerializeStruct = NodeStructSerializer<'a>;
     type SerializeStructVariant = NodeChildStructVariantSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
+        *self.omit = !v;
         self.node.entries_mut().push(KdlEntry::new(v));
         Ok(())
     }
@@ -569,12 +640,23 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
+        *self.omit = true;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        serialize_value_into_node(self.node, value)?;
+        // Keep complex values apart from `None`.
+        let is_like_none = match self.node.entries() {
+            [] => true,
+            [entry] => entry.name().is_none() && *entry.value() == KdlValue::Null,
+            _ => false,
+        };
+        if is_like_none && to_kdl_value(value).is_err() {
+            self.node.ensure_children();
+        }
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
@@ -600,7 +682,8 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         _name: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        serialize_value_into_node(self.node, value)?;
+        Ok(())
     }
 
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
@@ -660,9 +743,9 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         _name: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
-        Ok(NodeChildMapSerializer {
+        Ok(NodeStructSerializer {
             node: self.node,
-            current_key: None,
+            fields: Default::default(),
         })
     }
 
@@ -676,7 +759,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
         Ok(NodeChildStructVariantSerializer {
             parent: self.node,
             variant,
-            children: KdlDocument::new(),
+            fields: Default::default(),
         })
     }
 }
@@ -774,17 +857,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
@@ -793,7 +868,12 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
     }
 }
 
-impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
+struct NodeStructSerializer<'a> {
+    node: &'a mut KdlNode,
+    fields: NodeFields,
+}
+
+impl<'a> ser::SerializeStruct for NodeStructSerializer<'a> {
     type Ok = ();
     type Error = Error;
 
@@ -802,41 +882,13 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.node
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
-            let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
-            }
-        }
-        Ok(())
+        self.fields.add(key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if let Some(children) = self.fields.finish(self.node)? {
+            self.node.set_children(children);
+        }
         Ok(())
     }
 }
@@ -844,7 +896,7 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
 struct NodeChildStructVariantSerializer<'a> {
     parent: &'a mut KdlNode,
     variant: &'static str,
-    children: KdlDocument,
+    fields: NodeFields,
 }
 
 impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
@@ -856,44 +908,15 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.parent
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.parent.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
-            }
-        }
-        Ok(())
+        self.fields.add(key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        // The arguments and properties go on the parent.
         let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        let parent_children = self.parent.ensure_children();
-        parent_children.nodes_mut().push(node);
+        let children = self.fields.finish(self.parent)?;
+        node.set_children(children.unwrap_or_default());
+        self.parent.ensure_children().nodes_mut().push(node);
         Ok(())
     }
 }
@@ -1263,245 +1286,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
@@ -1599,7 +1383,7 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
+        // No arguments
         Ok(())
     }
 
-- 
2.43.0


From 286c66c3bd5a121850dbb6d85ceb8f39992805c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/35] fix: let the last of several properties with the same
 name win in serde

With `node a=1 a=2` a map got both values, and a struct was refused with
"duplicate field". As everywhere in KDL, the last one counts.
---
 src/de.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..323d3be 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -200,6 +200,7 @@
 //! ```
 
 use std::borrow::Cow;
+use std::collections::HashSet;
 use std::sync::Arc;
 use std::{fmt, iter};
 
@@ -726,6 +727,19 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
     }
 }
 
+/// The properties among these entries. The last one of several properties with
+/// the same name wins.
+fn props(entries: &[KdlEntry]) -> Vec<&KdlEntry> {
+    let mut names = HashSet::new();
+    let mut props: Vec<_> = entries
+        .iter()
+        .rev()
+        .filter(|e| e.name().is_some_and(|n| names.insert(n.value())))
+        .collect();
+    props.reverse();
+    props
+}
+
 struct NodeDeserializer<'a> {
     node: &'a KdlNode,
     input: &'a Arc<String>,
@@ -740,12 +754,9 @@ impl<'a> NodeDeserializer<'a> {
             .collect()
     }
 
+    /// The last one of several properties with the same name wins.
     fn props(&self) -> Vec<&'a KdlEntry> {
-        self.node
-            .entries()
-            .iter()
-            .filter(|e| e.name().is_some())
-            .collect()
+        props(self.node.entries())
     }
 
     /// Returns true if this node has only a single argument and nothing else.
@@ -1183,8 +1194,8 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
-            // SAFETY: we just filtered for things with names.
+        for prop in props(node.entries()) {
+            // SAFETY: these are the entries with names.
             let name = prop.name().unwrap().value();
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
-- 
2.43.0


From 561d1ca9b128c82ba2759e57fadfa97279592d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 17/35] fix: deserialize struct variants like structs

The fields of a struct variant were read without the list of its fields, so
`#n`, `#args`, `#@p` and missing flags did not work in one. And the arguments
and properties that the serializer writes on the node around the variant were
lost.
---
 src/de.rs | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 323d3be..7f887ca 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -634,6 +634,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         if nodes.len() == 1 {
             visitor.visit_enum(NodeEnumAccess {
                 node: &nodes[0],
+                entries: nodes[0].entries(),
                 input: self.input,
             })
         } else {
@@ -947,7 +948,12 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_map(NodeMapAccess::new(self.node, self.input, None))
+        visitor.visit_map(NodeMapAccess::new(
+            self.node,
+            self.node.entries(),
+            self.input,
+            None,
+        ))
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -956,7 +962,12 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_map(NodeMapAccess::new(self.node, self.input, Some(fields)))
+        visitor.visit_map(NodeMapAccess::new(
+            self.node,
+            self.node.entries(),
+            self.input,
+            Some(fields),
+        ))
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -985,8 +996,15 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         if let Some(children) = self.node.children() {
             let child_nodes = children.nodes();
             if child_nodes.len() == 1 {
+                // The serializer puts the arguments and properties of a
+                // struct variant on this node.
+                let mut entries = child_nodes[0].entries();
+                if entries.is_empty() {
+                    entries = self.node.entries();
+                }
                 return visitor.visit_enum(NodeEnumAccess {
                     node: &child_nodes[0],
+                    entries,
                     input: self.input,
                 });
             }
@@ -1007,6 +1025,7 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         // Fall back: just node name is variant
         visitor.visit_enum(NodeEnumAccess {
             node: self.node,
+            entries: self.node.entries(),
             input: self.input,
         })
     }
@@ -1144,6 +1163,7 @@ enum NodeMapValue<'a> {
 impl<'a> NodeMapAccess<'a> {
     fn new(
         node: &'a KdlNode,
+        node_entries: &'a [KdlEntry],
         input: &'a Arc<String>,
         fields: Option<&'static [&'static str]>,
     ) -> Self {
@@ -1165,8 +1185,7 @@ impl<'a> NodeMapAccess<'a> {
         {
             let mut args = Vec::new();
             let mut rest = Vec::new();
-            for (i, arg) in node
-                .entries()
+            for (i, arg) in node_entries
                 .iter()
                 .filter(|e| e.name().is_none())
                 .enumerate()
@@ -1194,7 +1213,7 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in props(node.entries()) {
+        for prop in props(node_entries) {
             // SAFETY: these are the entries with names.
             let name = prop.name().unwrap().value();
             if let Some(fields) = fields {
@@ -1373,6 +1392,8 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
 
 struct NodeEnumAccess<'a> {
     node: &'a KdlNode,
+    /// Where the arguments and properties of a struct variant are.
+    entries: &'a [KdlEntry],
     input: &'a Arc<String>,
 }
 
@@ -1398,6 +1419,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
             val,
             NodeVariantAccess {
                 node: self.node,
+                entries: self.entries,
                 input: self.input,
             },
         ))
@@ -1406,6 +1428,7 @@ impl<'de, 'a> de::EnumAccess<'de> for NodeEnumAccess<'a> {
 
 struct NodeVariantAccess<'a> {
     node: &'a KdlNode,
+    entries: &'a [KdlEntry],
     input: &'a Arc<String>,
 }
 
@@ -1442,16 +1465,15 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
-            NodeDeserializer {
-                node: self.node,
-                input: self.input,
-            },
-            visitor,
-        )
+        visitor.visit_map(NodeMapAccess::new(
+            self.node,
+            self.entries,
+            self.input,
+            Some(fields),
+        ))
     }
 }
 
-- 
2.43.0


From 2909dbd40395fab00de4b986031be7d2bbd6017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 18/35] fix: do not drop elements of a sequence when
 deserializing

`a 1 2 3` became `(1, 2)` when a pair was asked for; every other format of
serde refuses that. A node with just properties became an empty sequence,
arguments next to an empty block of children were dropped, and repeated nodes
could not be read as an `Option` or a newtype of a sequence.
---
 src/de.rs | 160 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 126 insertions(+), 34 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 7f887ca..b978286 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -588,10 +588,13 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_seq(NodeListSeqAccess {
-            iter: self.doc.nodes().iter(),
-            input: self.input,
-        })
+        visit_all(
+            visitor,
+            NodeListSeqAccess {
+                iter: self.doc.nodes().iter(),
+                input: self.input,
+            },
+        )
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
@@ -793,10 +796,13 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
 
         if !args.is_empty() && props.is_empty() && !has_children {
             // Only positional args → sequence
-            return visitor.visit_seq(ArgSeqAccess {
-                iter: args.into_iter(),
-                input: self.input,
-            });
+            return visit_all(
+                visitor,
+                ArgSeqAccess {
+                    iter: args.into_iter(),
+                    input: self.input,
+                },
+            );
         }
 
         // Has properties and/or children → map
@@ -909,24 +915,36 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         let args = self.args();
 
-        if !args.is_empty() && self.node.children().is_none() {
+        if !args.is_empty() && self.node.children().is_none_or(|c| c.nodes().is_empty()) {
             // Arguments → sequence
-            visitor.visit_seq(ArgSeqAccess {
-                iter: args.into_iter(),
-                input: self.input,
-            })
+            visit_all(
+                visitor,
+                ArgSeqAccess {
+                    iter: args.into_iter(),
+                    input: self.input,
+                },
+            )
         } else if let Some(children) = self.node.children() {
             // Children → sequence of nodes
-            visitor.visit_seq(NodeListSeqAccess {
-                iter: children.nodes().iter(),
-                input: self.input,
-            })
+            visit_all(
+                visitor,
+                NodeListSeqAccess {
+                    iter: children.nodes().iter(),
+                    input: self.input,
+                },
+            )
+        } else if !self.node.entries().is_empty() {
+            // Properties → not a sequence
+            self.deserialize_map(visitor)
         } else {
             // Empty → empty sequence
-            visitor.visit_seq(ArgSeqAccess {
-                iter: Vec::new().into_iter(),
-                input: self.input,
-            })
+            visit_all(
+                visitor,
+                ArgSeqAccess {
+                    iter: Vec::new().into_iter(),
+                    input: self.input,
+                },
+            )
         }
     }
 
@@ -1049,11 +1067,44 @@ impl<'a> NodeDeserializer<'a> {
     }
 }
 
+/// The elements of a sequence that are left.
+trait Elements {
+    fn input(&self) -> &Arc<String>;
+    fn next_span(&mut self) -> Option<SourceSpan>;
+}
+
+/// Has the visitor visit a sequence, and makes sure that it takes all of it.
+fn visit_all<'de, V, A>(visitor: V, mut access: A) -> Result<V::Value, Error>
+where
+    V: Visitor<'de>,
+    A: SeqAccess<'de, Error = Error> + Elements,
+{
+    let value = visitor.visit_seq(&mut access)?;
+    match access.next_span() {
+        Some(span) => Err(Error::new("too many elements in sequence").with_span(
+            access.input(),
+            span,
+            "this element is not expected",
+        )),
+        None => Ok(value),
+    }
+}
+
 struct ArgSeqAccess<'a> {
     iter: std::vec::IntoIter<&'a KdlEntry>,
     input: &'a Arc<String>,
 }
 
+impl<'a> Elements for ArgSeqAccess<'a> {
+    fn input(&self) -> &Arc<String> {
+        self.input
+    }
+
+    fn next_span(&mut self) -> Option<SourceSpan> {
+        self.iter.next().map(entry_span)
+    }
+}
+
 impl<'de, 'a> SeqAccess<'de> for ArgSeqAccess<'a> {
     type Error = Error;
 
@@ -1073,6 +1124,16 @@ struct NodeListSeqAccess<'a> {
     input: &'a Arc<String>,
 }
 
+impl<'a> Elements for NodeListSeqAccess<'a> {
+    fn input(&self) -> &Arc<String> {
+        self.input
+    }
+
+    fn next_span(&mut self) -> Option<SourceSpan> {
+        self.iter.next().map(node_span)
+    }
+}
+
 impl<'de, 'a> SeqAccess<'de> for NodeListSeqAccess<'a> {
     type Error = Error;
 
@@ -1105,15 +1166,30 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_seq(NodeGroupSeqAccess {
-            iter: self.nodes.iter(),
-            input: self.input,
-        })
+        visit_all(
+            visitor,
+            NodeGroupSeqAccess {
+                iter: self.nodes.iter(),
+                input: self.input,
+            },
+        )
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
     }
 
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
@@ -1123,6 +1199,16 @@ struct NodeGroupSeqAccess<'a> {
     input: &'a Arc<String>,
 }
 
+impl<'a> Elements for NodeGroupSeqAccess<'a> {
+    fn input(&self) -> &Arc<String> {
+        self.input
+    }
+
+    fn next_span(&mut self) -> Option<SourceSpan> {
+        self.iter.next().map(|node| node_span(node))
+    }
+}
+
 impl<'de, 'a> SeqAccess<'de> for NodeGroupSeqAccess<'a> {
     type Error = Error;
 
@@ -1324,17 +1410,23 @@ impl<'de, 'a> Deserializer<'de> for ArgsSeqDeserializer<'a> {
     type Error = Error;
 
     fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_seq(ArgSeqAccess {
-            iter: self.entries.into_iter(),
-            input: self.input,
-        })
+        visit_all(
+            visitor,
+            ArgSeqAccess {
+                iter: self.entries.into_iter(),
+                input: self.input,
+            },
+        )
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_seq(ArgSeqAccess {
-            iter: self.entries.into_iter(),
-            input: self.input,
-        })
+        visit_all(
+            visitor,
+            ArgSeqAccess {
+                iter: self.entries.into_iter(),
+                input: self.input,
+            },
+        )
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From a89c2e5e38f221e89dbdf52b148b120de213f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 19/35] fix: deserialize documents that are a tuple or a single
 value

The serializer writes these as `- value` nodes, which could not be read back.
---
 src/de.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index b978286..1e4a9f8 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -562,6 +562,17 @@ impl<'de, 'a> de::Deserializer<'de> for ValueDeserializer<'a> {
     }
 }
 
+macro_rules! forward_to_value_node {
+    ($($method:ident)*) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.value_node() {
+                Some(node) => node.$method(visitor),
+                None => self.deserialize_any(visitor),
+            }
+        }
+    )*};
+}
+
 struct DocumentDeserializer<'a> {
     doc: &'a KdlDocument,
     input: &'a Arc<String>,
@@ -627,10 +638,16 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
 
     fn deserialize_enum<V: Visitor<'de>>(
         self,
-        _name: &'static str,
-        _variants: &'static [&'static str],
+        name: &'static str,
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
+        // A unit variant is a single value.
+        if let Some(value_node) = self.value_node()
+            && !variants.contains(&"-")
+        {
+            return value_node.deserialize_enum(name, variants, visitor);
+        }
         // For enums at document level, treat as a single-node document where
         // the node name is the variant.
         let nodes = self.doc.nodes();
@@ -648,13 +665,46 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         }
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    forward_to_value_node! {
+        deserialize_bool
+        deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
+        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
+        deserialize_f32 deserialize_f64
+        deserialize_char deserialize_str deserialize_string
+    }
+
     serde::forward_to_deserialize_any! {
-        bool i8 i16 i32
-        i64 i128 u8 u16
-        u32 u64 u128 f32
-        f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf identifier ignored_any
+    }
+}
+
+impl<'a> DocumentDeserializer<'a> {
+    /// The node of a document that is just a single value (`- value`).
+    fn value_node(&self) -> Option<NodeDeserializer<'a>> {
+        match self.doc.nodes() {
+            [node] if node.name().value() == "-" => Some(NodeDeserializer {
+                node,
+                input: self.input,
+            }),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 69249c51c640aad21a93c34629bd505391836234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 20/35] fix: deserialize map keys that are not strings

The serializer writes integers, bools and so on as node names, and a map with
such keys could not be read back.
---
 src/de.rs | 79 +++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 1e4a9f8..c903f65 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -206,7 +206,6 @@ use std::{fmt, iter};
 
 use miette::{Diagnostic, LabeledSpan, Severity, SourceCode, SourceSpan};
 use serde::Deserialize;
-use serde::de::value::StringDeserializer;
 use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
 
 use crate::{KdlDiagnostic, KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};
@@ -562,6 +561,73 @@ impl<'de, 'a> de::Deserializer<'de> for ValueDeserializer<'a> {
     }
 }
 
+/// Deserializes a key, which is always a string in KDL.
+struct KeyDeserializer<'a> {
+    key: Cow<'a, str>,
+}
+
+macro_rules! parse_key {
+    ($($method:ident $visit:ident)*) => {$(
+        fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+            match self.key.parse() {
+                Ok(v) => visitor.$visit(v),
+                Err(_) => self.deserialize_any(visitor),
+            }
+        }
+    )*};
+}
+
+impl<'de, 'a> de::Deserializer<'de> for KeyDeserializer<'a> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        match self.key {
+            Cow::Borrowed(s) => visitor.visit_str(s),
+            Cow::Owned(s) => visitor.visit_string(s),
+        }
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_enum(str_deserializer(&self.key))
+    }
+
+    parse_key! {
+        deserialize_bool visit_bool
+        deserialize_i8 visit_i8
+        deserialize_i16 visit_i16
+        deserialize_i32 visit_i32
+        deserialize_i64 visit_i64
+        deserialize_u8 visit_u8
+        deserialize_u16 visit_u16
+        deserialize_u32 visit_u32
+        deserialize_u64 visit_u64
+        deserialize_f32 visit_f32
+        deserialize_f64 visit_f64
+    }
+
+    serde::forward_to_deserialize_any! {
+        i128 u128 char str string bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 macro_rules! forward_to_value_node {
     ($($method:ident)*) => {$(
         fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
@@ -755,8 +821,8 @@ impl<'de, 'a> MapAccess<'de> for DocumentMapAccess<'a> {
         if self.idx >= self.keys.len() {
             return Ok(None);
         }
-        let key = self.keys[self.idx];
-        seed.deserialize(str_deserializer(key)).map(Some)
+        let key = self.keys[self.idx].into();
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
@@ -1416,11 +1482,8 @@ impl<'de, 'a> MapAccess<'de> for NodeMapAccess<'a> {
         if self.idx >= self.entries.len() {
             return Ok(None);
         }
-        match &self.entries[self.idx].0 {
-            Cow::Borrowed(s) => seed.deserialize(str_deserializer(s)),
-            Cow::Owned(s) => seed.deserialize(StringDeserializer::new(s.clone())),
-        }
-        .map(Some)
+        let key = self.entries[self.idx].0.clone();
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V: DeserializeSeed<'de>>(
-- 
2.43.0


From 835de2f301d27c4fb7ad7cfe38dd6354ee9bbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 21/35] fix: optional types, absent newtype flags and claimed
 properties in serde

`#type` into an Option failed, as did an absent flag in a newtype. A property
read by `#@p` was offered to a field `p` as well, so that a struct with both of
them was refused with "duplicate field".
---
 src/de.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index c903f65..b3c8212 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -426,6 +426,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         self.annotate(visitor.visit_str(self.ident.value()))
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +450,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
@@ -1418,11 +1422,13 @@ impl<'a> NodeMapAccess<'a> {
         for prop in props(node_entries) {
             // SAFETY: these are the entries with names.
             let name = prop.name().unwrap().value();
+            let mut renamed = false;
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
                 if fields.contains(&hash_name.as_ref()) {
                     entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    renamed = true;
                 }
                 if let Some(ty) = prop.ty()
                     && fields.contains(&ty_name.as_ref())
@@ -1430,8 +1436,10 @@ impl<'a> NodeMapAccess<'a> {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
             }
-            entries.push((name.into(), NodeMapValue::Arg(prop)));
-            used_names.push(name);
+            if !renamed {
+                entries.push((name.into(), NodeMapValue::Arg(prop)));
+                used_names.push(name);
+            }
         }
 
         // Add children (grouped by node name)
@@ -1588,9 +1596,20 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf unit unit_struct tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From 782208053f6286ec653e3e8d998dcb39b4715131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 22/35] fix: deserialize byte arrays

The serializer writes them as sequences, which could not be read back.
---
 src/de.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index b3c8212..0531f12 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -752,6 +752,14 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         self.deserialize_seq(visitor)
     }
 
+    fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     forward_to_value_node! {
         deserialize_bool
         deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
@@ -761,7 +769,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
     }
 
     serde::forward_to_deserialize_any! {
-        bytes byte_buf identifier ignored_any
+        identifier ignored_any
     }
 }
 
@@ -991,10 +999,14 @@ impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {
         self.deserialize_scalar(visitor)
     }
     fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        self.deserialize_scalar(visitor)
+        if self.is_scalar() && self.args()[0].value().is_string() {
+            self.deserialize_scalar(visitor)
+        } else {
+            self.deserialize_seq(visitor)
+        }
     }
     fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        self.deserialize_scalar(visitor)
+        self.deserialize_bytes(visitor)
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From 0d09f469aa7aaa5d3718323c541404d54358f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 23/35] fix: let the conversion trait of nodes fall back to v1,
 too

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 1f50b9d..63ebb4e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -828,7 +828,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From 059d3e0cb35fb419f2d8e2e46054d89ff2b32b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 24/35] fix: return an error when the v1 parser panics

---
 src/document.rs   |  3 +--
 src/entry.rs      |  3 +--
 src/error.rs      | 27 +++++++++++++++++++++++++++
 src/identifier.rs |  3 +--
 src/node.rs       |  3 +--
 5 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index dcc68ee..f677265 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -383,8 +383,7 @@ impl KdlDocument {
     /// Parses a KDL v1 string into a document.
     #[cfg(feature = "v1")]
     pub fn parse_v1(s: &str) -> Result<Self, KdlError> {
-        let ret: Result<kdlv1::KdlDocument, kdlv1::KdlError> = s.parse();
-        ret.map(|x| x.into()).map_err(|e| e.into())
+        crate::error::parse_v1::<kdlv1::KdlDocument>(s).map(|x| x.into())
     }
 
     /// Takes a KDL v1 document string and returns the same document, but
diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..245e582 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -216,8 +216,7 @@ impl KdlEntry {
     /// Parses a KDL v1 string into an entry.
     #[cfg(feature = "v1")]
     pub fn parse_v1(s: &str) -> Result<Self, KdlError> {
-        let ret: Result<kdlv1::KdlEntry, kdlv1::KdlError> = s.parse();
-        ret.map(|x| x.into()).map_err(|e| e.into())
+        crate::error::parse_v1::<kdlv1::KdlEntry>(s).map(|x| x.into())
     }
 
     /// Makes sure this entry is in v2 format.
diff --git a/src/error.rs b/src/error.rs
index 15b19c8..5e57060 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -117,6 +117,33 @@ impl Diagnostic for KdlDiagnostic {
     }
 }
 
+/// Parses KDL v1 text.
+#[cfg(feature = "v1")]
+pub(crate) fn parse_v1<T>(s: &str) -> Result<T, KdlError>
+where
+    T: std::str::FromStr<Err = kdlv1::KdlError>,
+{
+    // Instead of returning an error, the v1 parser panics when a reserved
+    // keyword is used as an identifier close to the end of the input.
+    match std::panic::catch_unwind(|| s.parse::<T>()) {
+        Ok(res) => res.map_err(KdlError::from),
+        Err(_) => {
+            let input = Arc::new(s.to_string());
+            Err(KdlError {
+                input: input.clone(),
+                diagnostics: vec![KdlDiagnostic {
+                    input,
+                    span: SourceSpan::new(0.into(), s.len()),
+                    message: Some("Reserved keywords cannot be used as identifiers.".into()),
+                    label: None,
+                    help: None,
+                    severity: Severity::Error,
+                }],
+            })
+        }
+    }
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlError> for KdlError {
     fn from(value: kdlv1::KdlError) -> Self {
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..74e69e4 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -109,8 +109,7 @@ impl KdlIdentifier {
     /// Parses a KDL v1 string into an entry.
     #[cfg(feature = "v1")]
     pub fn parse_v1(s: &str) -> Result<Self, KdlError> {
-        let ret: Result<kdlv1::KdlIdentifier, kdlv1::KdlError> = s.parse();
-        ret.map(|x| x.into()).map_err(|e| e.into())
+        crate::error::parse_v1::<kdlv1::KdlIdentifier>(s).map(|x| x.into())
     }
 }
 
diff --git a/src/node.rs b/src/node.rs
index 63ebb4e..ac26a68 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -366,8 +366,7 @@ impl KdlNode {
     /// Parses a KDL v1 string into a document.
     #[cfg(feature = "v1")]
     pub fn parse_v1(s: &str) -> Result<Self, KdlError> {
-        let ret: Result<kdlv1::KdlNode, kdlv1::KdlError> = s.parse();
-        ret.map(|x| x.into()).map_err(|e| e.into())
+        crate::error::parse_v1::<kdlv1::KdlNode>(s).map(|x| x.into())
     }
 
     /// Makes sure this node is in v2 format.
-- 
2.43.0


From 463b4bc338fdc41bd06f6d9903ecc8ac1db901ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 25/35] fix: reject slashdashes within slashdashed entries

---
 src/v2_parser.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 739047d..5e75fa9 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -540,12 +540,23 @@ pub(crate) fn padded_node_entry(input: &mut Input<'_>) -> PResult<KdlEntry> {
     }
 }
 
-/// `node-prop-or-arg := prop | value`
-/// `prop := string optional-node-space equals-sign optional-node-space value`
+/// `node-prop-or-arg`, with what's before it.
 fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let leading = (node_space0, opt((slashdashed_entries, node_space1)))
         .take()
         .parse_next(input)?;
+    let entry = prop_or_arg.parse_next(input)?;
+    Ok(entry.map(|mut value| {
+        if let Some(fmt) = value.format_mut() {
+            fmt.leading = leading.into();
+        }
+        value
+    }))
+}
+
+/// `node-prop-or-arg := prop | value`
+/// `prop := string optional-node-space equals-sign optional-node-space value`
+fn prop_or_arg(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let _start = input.checkpoint();
     let maybe_ident = trace("prop name or string val", opt(identifier)).parse_next(input)?;
     let ident_was_parsed = maybe_ident.is_some();
@@ -593,20 +604,16 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
             .parse_next(input)?
             .flatten()
     };
-    Ok(entry.map(|mut value| {
-        if let Some(fmt) = value.format_mut() {
-            fmt.leading = leading.into();
-        }
-        #[cfg(feature = "span")]
-        {
-            value.span = span_from_checkpoint(input, &_start);
-        }
+    #[cfg(feature = "span")]
+    let entry = entry.map(|mut value| {
+        value.span = span_from_checkpoint(input, &_start);
         value
-    }))
+    });
+    Ok(entry)
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, prop_or_arg), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 0440ee2199c0e9bd9ce55e3ac10a67e12781f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 26/35] fix: parse slashdashed children only once

---
 src/v2_parser.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5e75fa9..a3777eb 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -398,29 +398,19 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     )
     .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
     .parse_next(input)?;
-    let children = opt((
-        before_node_children.take(),
-        trace("node children", node_children),
-    ))
-    .parse_next(input)?;
-    let (before_terminator, terminator) = if children.is_some() {
-        (
-            (opt(slashdashed_children), node_space0).take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+    let before_children = before_node_children.take().parse_next(input)?;
+    let children = opt(trace("node children", node_children)).parse_next(input)?;
+    let (before_children, before_terminator) = if children.is_some() {
+        let after_children = (opt(slashdashed_children), node_space0)
+            .take()
+            .parse_next(input)?;
+        (before_children, after_children)
     } else {
-        (
-            before_node_children.take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+        ("", before_children)
     };
+    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
     node_space0.parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
-    let (before_children, children) = children
-        .map(|(before_children, children)| (before_children.into(), Some(children)))
-        .unwrap_or(("".into(), None));
     Ok(KdlNode {
         ty,
         name,
@@ -430,7 +420,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
             before_ty_name: before_inner_ty.into(),
             after_ty_name: after_inner_ty.into(),
             after_ty: after_ty.into(),
-            before_children,
+            before_children: before_children.into(),
             before_terminator: before_terminator.into(),
             terminator: terminator.into(),
             ..Default::default()
-- 
2.43.0


From 4c8e4f89f732a9103d023cc872e3f9d71471be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 27/35] fix: convert names, types and values between v1 and v2
 in every notation

---
 src/convert.rs    | 19 +++++++++++++
 src/entry.rs      | 70 +++++++++++++++++++++++++++++++++++++++++------
 src/identifier.rs | 10 +++++++
 src/lib.rs        |  2 ++
 src/node.rs       | 12 ++++----
 5 files changed, 99 insertions(+), 14 deletions(-)
 create mode 100644 src/convert.rs

diff --git a/src/convert.rs b/src/convert.rs
new file mode 100644
index 0000000..1e6f77c
--- /dev/null
+++ b/src/convert.rs
@@ -0,0 +1,19 @@
+//! Conversion between versions of KDL.
+
+use crate::{KdlIdentifier, error::parse_v1};
+
+/// Makes sure an identifier is in v1 format.
+pub(crate) fn ensure_v1_identifier(ident: &mut KdlIdentifier) {
+    let value = ident.value().to_string();
+    let is_v1 = |repr: &str| {
+        !matches!(repr, "true" | "false" | "null")
+            && parse_v1::<kdlv1::KdlIdentifier>(repr).is_ok_and(|ident| ident.value() == value)
+    };
+    if !ident.repr().is_some_and(is_v1) {
+        ident.set_repr(if is_v1(&value) {
+            value.clone()
+        } else {
+            kdlv1::KdlValue::String(value.clone()).to_string()
+        });
+    }
+}
diff --git a/src/entry.rs b/src/entry.rs
index 245e582..52f9fa2 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -2,6 +2,8 @@
 use miette::SourceSpan;
 use std::{fmt::Display, str::FromStr};
 
+#[cfg(feature = "v1")]
+use crate::convert;
 use crate::{KdlError, KdlIdentifier, KdlValue, v2_parser};
 
 /// KDL Entries are the "arguments" to KDL nodes: either a (positional)
@@ -221,6 +223,9 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        for ident in [&mut self.ty, &mut self.name].into_iter().flatten() {
+            ident.ensure_v2();
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -267,6 +272,16 @@ impl KdlEntry {
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
         });
+        // If that's not what the value looks like in v2, don't try to preserve
+        // anything.
+        let value_repr = value_repr.map(|repr| {
+            let original = self.format.as_ref().map(|x| x.value_repr.clone());
+            [Some(repr), original]
+                .into_iter()
+                .flatten()
+                .find(|repr| self.is_v2_repr(repr))
+                .unwrap_or_else(|| self.value.to_string())
+        });
 
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
@@ -285,9 +300,22 @@ impl KdlEntry {
         }
     }
 
+    /// Whether this is how to write this entry's value in v2.
+    fn is_v2_repr(&self, repr: &str) -> bool {
+        v2_parser::try_parse(v2_parser::padded_node_entry, repr).is_ok_and(|entry| {
+            entry.name.is_none()
+                && entry.ty.is_none()
+                && entry.value == self.value
+                && entry.format.is_some_and(|fmt| fmt.value_repr == repr)
+        })
+    }
+
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        for ident in [&mut self.ty, &mut self.name].into_iter().flatten() {
+            convert::ensure_v1_identifier(ident);
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -349,6 +377,16 @@ impl KdlEntry {
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
             }
         });
+        // If that's not what the value looks like in v1, don't try to preserve
+        // anything.
+        let value_repr = value_repr.map(|repr| {
+            let original = self.format.as_ref().map(|x| x.value_repr.clone());
+            [Some(repr), original]
+                .into_iter()
+                .flatten()
+                .find(|repr| self.is_v1_repr(repr))
+                .unwrap_or_else(|| self.v1_value())
+        });
 
         if let Some(value_repr) = value_repr.as_ref() {
             self.format = Some(
@@ -365,20 +403,36 @@ impl KdlEntry {
                     }),
             )
         } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
-            };
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr: self.v1_value(),
                 leading: " ".into(),
                 ..Default::default()
             })
         }
     }
+
+    /// Whether this is how to write this entry's value in v1.
+    #[cfg(feature = "v1")]
+    fn is_v1_repr(&self, repr: &str) -> bool {
+        KdlEntry::parse_v1(repr).is_ok_and(|entry| {
+            entry.name.is_none()
+                && entry.ty.is_none()
+                && entry.value == self.value
+                && entry.format.is_some_and(|fmt| fmt.value_repr == repr)
+        })
+    }
+
+    /// This entry's value, as it is written in v1.
+    #[cfg(feature = "v1")]
+    fn v1_value(&self) -> String {
+        match self.value() {
+            KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+            KdlValue::Integer(i) => i.to_string(),
+            KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+            KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b).to_string(),
+            KdlValue::Null => kdlv1::KdlValue::Null.to_string(),
+        }
+    }
 }
 
 #[cfg(feature = "v1")]
diff --git a/src/identifier.rs b/src/identifier.rs
index 74e69e4..bf772b3 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -106,6 +106,16 @@ impl KdlIdentifier {
         }
     }
 
+    pub(crate) fn ensure_v2(&mut self) {
+        let is_v2 = |repr: &str| {
+            v2_parser::try_parse(v2_parser::identifier, repr)
+                .is_ok_and(|ident| ident.value == self.value)
+        };
+        if self.repr.as_deref().is_some_and(|repr| !is_v2(repr)) {
+            self.repr = None;
+        }
+    }
+
     /// Parses a KDL v1 string into an entry.
     #[cfg(feature = "v1")]
     pub fn parse_v1(s: &str) -> Result<Self, KdlError> {
diff --git a/src/lib.rs b/src/lib.rs
index f81ae70..22f50bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,6 +195,8 @@ pub use node::*;
 // pub use query::*;
 pub use value::*;
 
+#[cfg(feature = "v1")]
+mod convert;
 mod document;
 mod entry;
 mod error;
diff --git a/src/node.rs b/src/node.rs
index ac26a68..8f54e8c 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -9,6 +9,8 @@ use std::{
 #[cfg(feature = "span")]
 use miette::SourceSpan;
 
+#[cfg(feature = "v1")]
+use crate::convert;
 use crate::{
     FormatConfig, KdlDocument, KdlDocumentFormat, KdlEntry, KdlError, KdlIdentifier, KdlValue,
     v2_parser,
@@ -386,12 +388,10 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        if let Some(ty) = &mut self.ty {
+            convert::ensure_v1_identifier(ty);
+        }
+        convert::ensure_v1_identifier(&mut self.name);
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-- 
2.43.0


From 27f7be6490786bf913a110b7e807030ff8892215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 28/35] fix: convert all formatting between v1 and v2

---
 src/convert.rs  | 380 +++++++++++++++++++++++++++++++++++++++++++++++-
 src/document.rs |  68 ++++-----
 src/entry.rs    |  23 ++-
 src/node.rs     |  60 +++-----
 4 files changed, 452 insertions(+), 79 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 1e6f77c..ab4f7f3 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -1,6 +1,314 @@
-//! Conversion between versions of KDL.
+//! Conversion of whitespace, comments and slashdashed parts between versions
+//! of KDL.
 
-use crate::{KdlIdentifier, error::parse_v1};
+use crate::{KdlDocument, KdlIdentifier, KdlNode, error::parse_v1, v2_parser};
+
+/// A version of KDL.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) enum Version {
+    V1,
+    V2,
+}
+
+/// Where in a document some formatting is.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) enum Place {
+    /// Before a node.
+    BeforeNode,
+    /// After all the nodes of a document.
+    End,
+    /// After all the nodes of a children block.
+    BlockEnd,
+    /// Before an argument or property.
+    BeforeEntry,
+    /// Before a children block.
+    BeforeChildren,
+    /// Before the terminator of a node.
+    BeforeTerminator,
+    /// Between a children block and the terminator of its node.
+    AfterChildren,
+}
+
+/// Makes formatting valid in the given version of KDL.
+pub(crate) fn convert(format: &mut String, place: Place, to: Version) {
+    let safely = |format: &str| match (place, to) {
+        // Whatever ends the node must not become part of it.
+        (Place::BeforeTerminator, Version::V1) => has_shape(&format!("a{format};a"), "<a><a>", to),
+        (Place::AfterChildren, Version::V1) => {
+            has_shape(&format!("a{{}}{format};a"), "<a{}><a>", to)
+        }
+        _ => fits(format, place, to),
+    };
+    if format.chars().all(|c| c == ' ') || safely(format) {
+        return;
+    }
+    let between_nodes = matches!(place, Place::BeforeNode | Place::End | Place::BlockEnd);
+    let converted = rewrite(format, between_nodes, to);
+    *format = if safely(&converted) {
+        converted
+    } else if fits(format, place, to) {
+        return;
+    } else if fits(&converted, place, to) {
+        converted
+    } else if matches!(place, Place::BeforeEntry | Place::BeforeChildren) {
+        " ".into()
+    } else {
+        "".into()
+    };
+}
+
+/// Makes the terminator of a node valid in the given version of KDL.
+pub(crate) fn convert_terminator(terminator: &mut String, to: Version) {
+    match to {
+        // In v1, this one doesn't end a comment.
+        Version::V1
+            if terminator.ends_with('\u{000B}')
+                && newline_at(terminator) == Some(terminator.len() - 1) =>
+        {
+            terminator.pop();
+            terminator.push('\u{000C}');
+        }
+        Version::V2 if !has_shape(&format!("a{terminator}"), "<a>", to) => {
+            *terminator = v2_comment(terminator);
+        }
+        _ => {}
+    }
+}
+
+/// A v1 comment, as it can be written in v2.
+fn v2_comment(comment: &str) -> String {
+    comment
+        .chars()
+        .map(|c| match c {
+            '\u{000B}' => ' ',
+            c if v2_parser::is_disallowed_unicode(c) => ' ',
+            c => c,
+        })
+        .collect()
+}
+
+/// Whether formatting is valid in the given version of KDL.
+fn fits(format: &str, place: Place, version: Version) -> bool {
+    let (text, expected) = match place {
+        Place::BeforeNode => (format!("a;{format}a"), "<a><a>"),
+        Place::End => (format!("a;{format}"), "<a>"),
+        Place::BlockEnd => (format!("a {{a;{format}}}"), "<a{<a>}>"),
+        Place::BeforeEntry => (format!("a{format}\"\""), "<a.>"),
+        Place::BeforeChildren => (format!("a{format}{{}}"), "<a{}>"),
+        Place::BeforeTerminator => (format!("a{format}"), "<a>"),
+        Place::AfterChildren => (format!("a{{}}{format}"), "<a{}>"),
+    };
+    has_shape(&text, expected, version)
+}
+
+fn has_shape(text: &str, expected: &str, version: Version) -> bool {
+    parse(text, version).is_some_and(|doc| {
+        let mut shape = String::new();
+        document_shape(&doc, &mut shape);
+        shape == expected
+    })
+}
+
+fn document_shape(doc: &KdlDocument, shape: &mut String) {
+    for node in doc.nodes() {
+        shape.push('<');
+        shape.push_str(node.name().value());
+        for _ in node.entries() {
+            shape.push('.');
+        }
+        if let Some(children) = node.children() {
+            shape.push('{');
+            document_shape(children, shape);
+            shape.push('}');
+        }
+        shape.push('>');
+    }
+}
+
+fn parse(text: &str, version: Version) -> Option<KdlDocument> {
+    match version {
+        Version::V1 => KdlDocument::parse_v1(text).ok(),
+        Version::V2 => KdlDocument::parse_v2(text).ok(),
+    }
+}
+
+fn newline_at(text: &str) -> Option<usize> {
+    v2_parser::NEWLINES
+        .iter()
+        .filter_map(|nl| text.find(nl))
+        .min()
+}
+
+/// The length of the multi-line comment that the text starts with.
+fn comment_len(text: &str) -> usize {
+    let mut depth = 0;
+    let mut i = 0;
+    while i < text.len() {
+        let rest = &text.as_bytes()[i..];
+        if rest.starts_with(b"/*") {
+            depth += 1;
+            i += 2;
+        } else if rest.starts_with(b"*/") {
+            depth -= 1;
+            i += 2;
+            if depth == 0 {
+                break;
+            }
+        } else {
+            i += 1;
+        }
+    }
+    i
+}
+
+/// Writes formatting the way the given version does.
+fn rewrite(format: &str, between_nodes: bool, to: Version) -> String {
+    // In v1, this one doesn't end a line.
+    let ends_line = |c: char| c != '\u{000B}' || to == Version::V1;
+    let mut result = String::new();
+    let comment = |text: &str| match to {
+        Version::V1 => text.to_string(),
+        Version::V2 => v2_comment(text),
+    };
+    let mut rest = format;
+    while let Some(c) = rest.chars().next() {
+        let len = if rest.starts_with("//") {
+            let mut len = 0;
+            while let Some(i) = newline_at(&rest[len..]) {
+                len += i;
+                match rest[len..].chars().next() {
+                    Some(c) if !ends_line(c) => len += c.len_utf8(),
+                    _ => break,
+                }
+            }
+            if newline_at(&rest[len..]) != Some(0) {
+                len = rest.len();
+            }
+            result.push_str(&comment(&rest[..len]));
+            len
+        } else if rest.starts_with("/*") {
+            let len = comment_len(rest);
+            result.push_str(&comment(&rest[..len]));
+            len
+        } else if let Some(inner) = rest.strip_prefix("/-") {
+            if let Some(inner) = slashdashed(inner, between_nodes, to) {
+                result.push_str("/-");
+                result.push_str(&inner);
+            }
+            break;
+        } else {
+            match c {
+                // There are no line continuations between v1 nodes.
+                '\\' if between_nodes && to == Version::V1 => {}
+                '\u{000B}' if to == Version::V1 => result.push('\u{000C}'),
+                '\u{FEFF}' => result.push(' '),
+                c => result.push(c),
+            }
+            c.len_utf8()
+        };
+        rest = &rest[len..];
+    }
+    result
+}
+
+/// Converts something slashdashed, and the formatting after it.
+fn slashdashed(inner: &str, between_nodes: bool, to: Version) -> Option<String> {
+    let from = match to {
+        Version::V1 => Version::V2,
+        Version::V2 => Version::V1,
+    };
+    if between_nodes {
+        let mut doc = parse(inner, from).filter(|doc| doc.nodes().len() == 1)?;
+        doc.convert_notation(to);
+        doc.convert_format(to, true);
+        Some(doc.to_string())
+    } else {
+        let mut inner = inner;
+        while let Some(c) = inner.chars().next() {
+            let len = if inner.starts_with("//") {
+                newline_at(inner)?
+            } else if inner.starts_with("/*") {
+                comment_len(inner)
+            } else if c.is_whitespace() || c == '\\' || c == '\u{FEFF}' {
+                c.len_utf8()
+            } else {
+                break;
+            };
+            inner = &inner[len..];
+        }
+        let mut doc = parse(&format!("a {inner}"), from).filter(|doc| doc.nodes().len() == 1)?;
+        doc.convert_notation(to);
+        doc.convert_format(to, false);
+        doc.to_string().strip_prefix("a ").map(|s| s.to_string())
+    }
+}
+
+/// Splits what follows a v1 node into what comes before its terminator, the
+/// terminator, and what comes after it.
+pub(crate) fn split_v1_trailing(trailing: &str) -> (&str, &str, &str) {
+    let mut i = 0;
+    let mut depth = 0;
+    let mut continued = false;
+    while let Some(c) = trailing[i..].chars().next() {
+        let rest = &trailing[i..];
+        let newline = if rest.starts_with("\r\n") {
+            2
+        } else if c != '\u{000B}' && newline_at(rest) == Some(0) {
+            c.len_utf8()
+        } else {
+            0
+        };
+        i += if rest.starts_with("//") || newline > 0 {
+            let mut len = newline;
+            if len == 0 {
+                let end = rest
+                    .char_indices()
+                    .find(|(i, c)| *c != '\u{000B}' && newline_at(&rest[*i..]) == Some(0))
+                    .map_or(rest.len(), |(i, _)| i);
+                len = end;
+                if rest[end..].starts_with("\r\n") {
+                    len += 2;
+                } else if let Some(c) = rest[end..].chars().next() {
+                    len += c.len_utf8();
+                }
+            }
+            if depth == 0 && !continued {
+                return (&trailing[..i], &rest[..len], &rest[len..]);
+            }
+            continued = false;
+            len
+        } else if rest.starts_with("/*") {
+            comment_len(rest)
+        } else if c == '"' {
+            let mut escaped = false;
+            rest[1..]
+                .find(|c| {
+                    let end = c == '"' && !escaped;
+                    escaped = c == '\\' && !escaped;
+                    end
+                })
+                .map_or(rest.len(), |len| len + 2)
+        } else if let Some(raw) = rest.strip_prefix('r').map(|s| s.trim_start_matches('#'))
+            && raw.starts_with('"')
+        {
+            let hashes = rest.len() - raw.len() - 1;
+            let end = format!("\"{}", "#".repeat(hashes));
+            raw[1..]
+                .find(&end)
+                .map_or(rest.len(), |len| 1 + hashes + 1 + len + end.len())
+        } else {
+            match c {
+                '{' => depth += 1,
+                '}' => depth -= 1,
+                '\\' => continued = true,
+                ';' if depth == 0 => return (&trailing[..i], ";", &rest[1..]),
+                _ => {}
+            }
+            c.len_utf8()
+        };
+    }
+    (trailing, "", "")
+}
 
 /// Makes sure an identifier is in v1 format.
 pub(crate) fn ensure_v1_identifier(ident: &mut KdlIdentifier) {
@@ -17,3 +325,71 @@ pub(crate) fn ensure_v1_identifier(ident: &mut KdlIdentifier) {
         });
     }
 }
+
+/// The first thing in a document can have a BOM.
+fn convert_first(format: &mut String, place: Place, to: Version, first: bool) {
+    match format.strip_prefix('\u{FEFF}').map(|s| s.to_string()) {
+        Some(mut rest) if first => {
+            convert(&mut rest, place, to);
+            *format = format!("\u{FEFF}{rest}");
+        }
+        _ => convert(format, place, to),
+    }
+}
+
+impl KdlDocument {
+    fn convert_notation(&mut self, to: Version) {
+        match to {
+            Version::V1 => self.v1_notation(),
+            Version::V2 => self.v2_notation(),
+        }
+    }
+
+    /// Converts the formatting in this document, except for its entries.
+    pub(crate) fn convert_format(&mut self, to: Version, block: bool) {
+        let place = if block { Place::BlockEnd } else { Place::End };
+        if let Some(fmt) = self.format_mut() {
+            convert_first(&mut fmt.leading, place, to, !block);
+            convert(&mut fmt.trailing, place, to);
+        }
+        let mut first = !block;
+        for node in self.nodes_mut() {
+            node.convert_format(to, first);
+            first = false;
+        }
+        if to == Version::V1
+            && block
+            && let Some(fmt) = self.nodes_mut().last_mut().and_then(|n| n.format_mut())
+            && fmt.terminator.is_empty()
+        {
+            // All nodes in a v1 block have to be terminated.
+            fmt.terminator = ";".into();
+        }
+    }
+}
+
+impl KdlNode {
+    /// Converts the formatting in this node, except for its entries.
+    pub(crate) fn convert_format(&mut self, to: Version, first: bool) {
+        let has_children = self.children.is_some();
+        if let Some(children) = &mut self.children {
+            children.convert_format(to, true);
+        }
+        if let Some(fmt) = self.format_mut() {
+            convert_first(&mut fmt.leading, Place::BeforeNode, to, first);
+            if to == Version::V1 {
+                fmt.before_ty_name = "".into();
+                fmt.after_ty_name = "".into();
+                fmt.after_ty = "".into();
+            }
+            if has_children {
+                convert(&mut fmt.before_children, Place::BeforeChildren, to);
+                convert(&mut fmt.before_terminator, Place::AfterChildren, to);
+            } else {
+                convert(&mut fmt.before_terminator, Place::BeforeTerminator, to);
+            }
+            convert_terminator(&mut fmt.terminator, to);
+            convert(&mut fmt.trailing, Place::End, to);
+        }
+    }
+}
diff --git a/src/document.rs b/src/document.rs
index f677265..0542f7d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,9 +2,9 @@
 use miette::SourceSpan;
 use std::fmt::Display;
 
-#[cfg(feature = "v1")]
-use crate::KdlNodeFormat;
 use crate::{FormatConfig, KdlError, KdlNode, KdlValue};
+#[cfg(feature = "v1")]
+use crate::{KdlNodeFormat, convert::Version};
 
 /// Represents a KDL
 /// [`Document`](https://github.com/kdl-org/kdl/blob/main/SPEC.md#document).
@@ -406,56 +406,46 @@ impl KdlDocument {
 
     /// Makes sure this document is in v2 format.
     pub fn ensure_v2(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
+        self.v2_notation();
+        #[cfg(feature = "v1")]
+        self.convert_format(Version::V2, false);
+    }
+
+    pub(crate) fn v2_notation(&mut self) {
         for node in self.nodes_mut().iter_mut() {
-            node.ensure_v2();
+            node.v2_notation();
         }
     }
 
     /// Makes sure this document is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        // No need to touch KdlDocumentFormat, probably. In the longer term,
-        // we'll want to make sure to parse out whitespace and comments and make
-        // sure they're actually compliant, but this is good enough for now.
+        self.v1_notation();
+        self.convert_format(Version::V1, false);
+    }
 
-        // the last node in v1 docs/children has to have a semicolon.
+    #[cfg(feature = "v1")]
+    pub(crate) fn v1_notation(&mut self) {
+        // the last node in v1 docs/children has to be terminated.
         let mut iter = self.nodes_mut().iter_mut().rev();
         let last = iter.next();
         let penult = iter.next();
-        if let Some(last) = last {
-            if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
-                    fmt.terminator = ";".into();
-                }
-            } else {
-                let maybe_indent = {
-                    if let Some(penult) = penult {
-                        if let Some(fmt) = penult.format() {
-                            fmt.leading.clone()
-                        } else {
-                            "".into()
-                        }
-                    } else {
-                        "".into()
-                    }
-                };
-                last.format = Some(KdlNodeFormat {
-                    leading: maybe_indent,
-                    terminator: "\n".into(),
-                    ..Default::default()
-                })
-            }
+        if let Some(last) = last
+            && last.format().is_none()
+        {
+            let maybe_indent = penult
+                .and_then(|penult| penult.format())
+                .and_then(|fmt| fmt.leading.lines().last())
+                .filter(|indent| indent.trim().is_empty())
+                .unwrap_or("");
+            last.format = Some(KdlNodeFormat {
+                leading: maybe_indent.into(),
+                terminator: "\n".into(),
+                ..Default::default()
+            });
         }
         for node in self.nodes_mut().iter_mut() {
-            node.ensure_v1();
+            node.v1_notation();
         }
     }
 }
diff --git a/src/entry.rs b/src/entry.rs
index 52f9fa2..5768bb3 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -3,7 +3,7 @@ use miette::SourceSpan;
 use std::{fmt::Display, str::FromStr};
 
 #[cfg(feature = "v1")]
-use crate::convert;
+use crate::convert::{self, Place, Version};
 use crate::{KdlError, KdlIdentifier, KdlValue, v2_parser};
 
 /// KDL Entries are the "arguments" to KDL nodes: either a (positional)
@@ -298,6 +298,9 @@ impl KdlEntry {
                     }),
             )
         }
+
+        #[cfg(feature = "v1")]
+        self.convert_format(Version::V2);
     }
 
     /// Whether this is how to write this entry's value in v2.
@@ -409,6 +412,7 @@ impl KdlEntry {
                 ..Default::default()
             })
         }
+        self.convert_format(Version::V1);
     }
 
     /// Whether this is how to write this entry's value in v1.
@@ -433,6 +437,23 @@ impl KdlEntry {
             KdlValue::Null => kdlv1::KdlValue::Null.to_string(),
         }
     }
+
+    #[cfg(feature = "v1")]
+    fn convert_format(&mut self, to: Version) {
+        if let Some(fmt) = self.format_mut() {
+            if !fmt.leading.is_empty() {
+                convert::convert(&mut fmt.leading, Place::BeforeEntry, to);
+            }
+            convert::convert(&mut fmt.trailing, Place::BeforeTerminator, to);
+            if to == Version::V1 {
+                fmt.before_ty_name = "".into();
+                fmt.after_ty_name = "".into();
+                fmt.after_ty = "".into();
+                fmt.after_key = "".into();
+                fmt.after_eq = "".into();
+            }
+        }
+    }
 }
 
 #[cfg(feature = "v1")]
diff --git a/src/node.rs b/src/node.rs
index 8f54e8c..a656540 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -10,7 +10,7 @@ use std::{
 use miette::SourceSpan;
 
 #[cfg(feature = "v1")]
-use crate::convert;
+use crate::convert::{self, Version};
 use crate::{
     FormatConfig, KdlDocument, KdlDocumentFormat, KdlEntry, KdlError, KdlIdentifier, KdlValue,
     v2_parser,
@@ -373,21 +373,32 @@ impl KdlNode {
 
     /// Makes sure this node is in v2 format.
     pub fn ensure_v2(&mut self) {
+        self.v2_notation();
+        #[cfg(feature = "v1")]
+        self.convert_format(Version::V2, false);
+    }
+
+    pub(crate) fn v2_notation(&mut self) {
         self.ty = self.ty.take().map(|ty| ty.value().into());
         let v2_name: KdlIdentifier = self.name.value().into();
         self.name = v2_name;
         for entry in self.iter_mut() {
             entry.ensure_v2();
         }
-        self.children = self.children.take().map(|mut doc| {
-            doc.ensure_v2();
-            doc
-        });
+        if let Some(children) = &mut self.children {
+            children.v2_notation();
+        }
     }
 
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        self.v1_notation();
+        self.convert_format(Version::V1, false);
+    }
+
+    #[cfg(feature = "v1")]
+    pub(crate) fn v1_notation(&mut self) {
         if let Some(ty) = &mut self.ty {
             convert::ensure_v1_identifier(ty);
         }
@@ -395,42 +406,17 @@ impl KdlNode {
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-        self.children = self.children.take().map(|mut children| {
-            children.ensure_v1();
-            children
-        });
+        if let Some(children) = &mut self.children {
+            children.v1_notation();
+        }
     }
 }
 
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let (before_terminator, terminator, trailing) =
+            convert::split_v1_trailing(value.trailing().unwrap_or("\n"));
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -442,9 +428,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
-- 
2.43.0


From 57b6c2ffd05537462684e83c2ec935235f3b2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 29/35] fix: don't recurse for every piece of a block comment

---
 src/v2_parser.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index a3777eb..ddf17c8 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1689,19 +1689,19 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
-        "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
-    .parse_next(input)
+    // Comments can nest arbitrarily deep, so count instead of recursing.
+    let mut depth = 1usize;
+    while depth > 0 {
+        alt((
+            "*/".map(|_| -1),
+            "/*".map(|_| 1),
+            one_of(['*', '/']).map(|_| 0),
+            take_while(1.., |c| !['*', '/'].contains(&c)).map(|_| 0),
+        ))
+        .map(|change| depth = depth.wrapping_add_signed(change))
+        .parse_next(input)?;
+    }
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 55469bb38793a2c0c80e2f77b26cf560e399ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 30/35] fix: don't recurse for every piece of rubbish at the
 end of a document

---
 src/v2_parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index ddf17c8..002dabc 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -244,18 +244,19 @@ fn new_input(s: &str) -> Input<'_> {
 
 /// `document := bom? nodes`
 pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let bom = opt(bom.take()).parse_next(input)?;
+    let leading_bom = opt(bom.take()).parse_next(input)?;
     let mut doc = nodes.parse_next(input)?;
-    let badend = resume_after_cut(
+    while resume_after_cut(
         cut_err(eof).context(cx().lbl("EOF").msg("Expected end of document")),
         any.void(),
     )
     .parse_next(input)?
-    .is_none();
-    if badend {
-        document.parse_next(input)?;
+    .is_none()
+    {
+        // Only look for more errors: there is no document anymore.
+        (opt(bom), nodes).void().parse_next(input)?;
     }
-    if let Some(bom) = bom
+    if let Some(bom) = leading_bom
         && let Some(fmt) = doc.format_mut()
     {
         fmt.leading = format!("{bom}{}", fmt.leading);
-- 
2.43.0


From c3de22bc6673840f30f3ef410113ba0e92e2205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 31/35] fix: don't look for whitespace escapes in empty lines
 of multi-line strings

---
 src/v2_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 002dabc..3cf4d87 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1180,9 +1180,8 @@ fn quoted_string(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 fn empty_line(input: &mut Input<'_>) -> PResult<&'static str> {
-    repeat(0.., alt((ws_escape.void(), unicode_space.void())))
-        .map(|()| ())
-        .parse_next(input)?;
+    // No whitespace escapes: they would include the newline.
+    repeat(0.., unicode_space).map(|()| ()).parse_next(input)?;
     newline.parse_next(input)?;
     Ok("\n")
 }
-- 
2.43.0


From 00d0ace6081d53f33d797c4106dbcd930f90b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 32/35] fix: parse slashdashed nodes once, however deeply they
 are nested

---
 src/v2_parser.rs | 73 ++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3cf4d87..1e13ed1 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -266,37 +266,32 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let mut between = before_node.parse_next(input)?;
     let _start = input.checkpoint();
-    let mut ns: Vec<KdlNode> = separated(
-        0..,
-        node,
-        alt((node_terminator.void(), (eof.void(), any.void()).void())),
-    )
-    .parse_next(input)?;
-    let _span = span_from_checkpoint(input, &_start);
-    let terminated = opt(node_terminator).parse_next(input)?.is_some();
-    // Only a terminated node can be followed by anything else.
-    let trailing = if ns.is_empty() || terminated {
-        repeat(0.., alt((line_space.void(), slashdashed_node)))
-            .map(|()| ())
-            .take()
-            .parse_next(input)?
-    } else {
-        ""
-    };
+    let mut _span = span_from_checkpoint(input, &_start);
+    let mut ns: Vec<KdlNode> = Vec::new();
+    // Everything is only looked at once: slashdashed nodes have children, too.
+    while let Some(mut nd) = opt(base_node).parse_next(input)? {
+        if let Some(fmt) = nd.format_mut() {
+            fmt.leading = between.into();
+        }
+        ns.push(nd);
+        between = "";
+        _span = span_from_checkpoint(input, &_start);
+        // Only a terminated node can be followed by anything else.
+        if opt(node_terminator).parse_next(input)?.is_none() {
+            break;
+        }
+        between = before_node.parse_next(input)?;
+    }
 
-    // If there is a node, let it have the leading format
+    // If there is a node, it has the leading format.
     // This gives more consistent behavior
-    if let Some(first_node) = ns.get_mut(0)
-        && let Some(first_node_format) = first_node.format_mut()
-    {
-        first_node_format.leading = leading.into();
-        leading = "";
-    }
+    let (leading, trailing) = if ns.is_empty() {
+        (between, "")
+    } else {
+        ("", between)
+    };
 
     Ok(KdlDocument {
         nodes: ns,
@@ -309,6 +304,14 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     })
 }
 
+/// What can come before a node, as text.
+fn before_node<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
+    repeat(0.., alt((line_space.void(), slashdashed_node)))
+        .map(|()| ())
+        .take()
+        .parse_next(input)
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -318,10 +321,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let leading = before_node.parse_next(input)?;
     let mut nd = base_node.parse_next(input)?;
     if let Some(fmt) = nd.format_mut() {
         fmt.leading = leading.into();
@@ -335,7 +335,14 @@ fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
     (
         slashdash,
         base_node,
-        alt((node_terminator, peek(alt((eof.void(), "}".void()))))),
+        // Going back to try something else would take exponential time.
+        resume_after_cut(
+            cut_err(alt((node_terminator, peek(alt((eof.void(), "}".void())))))).context(
+                cx().lbl("end of node")
+                    .msg("Expected end of slashdashed node"),
+            ),
+            empty,
+        ),
     )
         .void()
         .parse_next(input)
-- 
2.43.0


From 24cc26e0fd82366dd40a0722f6f8ab52b90e2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 33/35] fix: don't print everything to see whether an unclosed
 block is empty

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 1e13ed1..6b7483b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -792,7 +792,7 @@ fn node_children(input: &mut Input<'_>) -> PResult<KdlDocument> {
                     e => return Err(e),
                 };
                 input.record_err(&_before_open, &_before_open, e)?;
-                if !ns.is_empty() {
+                if _after_nodes_loc > _after_open_loc {
                     input.record_err(
                         &_after_nodes,
                         &_after_nodes,
-- 
2.43.0


From 96652e826982fc3baaeaedb652673125d5bd9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 34/35] fix: language server: keep the last of several changes,
 and don't panic without any

---
 tools/kdl-lsp/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..b184d75 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,10 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // Changes are full texts, to be applied in order: the last one stays.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From c11cdb44866e3b9519865846a18f284cb641d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 35/35] fix: language server: count lines the way the protocol
 does

---
 tools/kdl-lsp/src/main.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index b184d75..b8e0194 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -105,7 +105,8 @@ impl LanguageServer for Backend {
     ) -> Result<DocumentDiagnosticReportResult> {
         tracing::debug!("diagnostic req");
         if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
-            let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
+            let text = doc.to_string();
+            let res: std::result::Result<KdlDocument, KdlError> = text.parse();
             if let Err(kdl_err) = res {
                 let diags = kdl_err
                     .diagnostics
@@ -113,8 +114,8 @@ impl LanguageServer for Backend {
                     .map(|diag| {
                         Diagnostic::new(
                             Range::new(
-                                byte_to_position(diag.span.offset(), &doc),
-                                byte_to_position(diag.span.offset() + diag.span.len(), &doc),
+                                byte_to_position(diag.span.offset(), &text),
+                                byte_to_position(diag.span.offset() + diag.span.len(), &text),
                             ),
                             diag.severity().map(to_lsp_sev),
                             diag.code().map(|c| NumberOrString::String(c.to_string())),
@@ -162,21 +163,27 @@ impl LanguageServer for Backend {
 }
 
 /// Converts a byte offset to an LSP [`Position`].
-///
-/// This panics when we feed it a byte index that falls somewhere inside a multi-byte UTF-8 char.
-fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
+fn byte_to_position(byte_idx: usize, text: &str) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
-    let byte_idx = byte_idx.min(rope.len_bytes());
-    // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
+    let before = text.get(..byte_idx).unwrap_or(text);
+    // For the LSP, only `\n`, `\r\n` and `\r` end a line. KDL (and Unicode) has
+    // more newlines than that.
+    let bytes = text.as_bytes();
+    let mut line_idx = 0;
+    let mut line_start = 0;
+    for (i, b) in before.bytes().enumerate() {
+        if b == b'\n' || (b == b'\r' && bytes.get(i + 1) != Some(&b'\n')) {
+            line_idx += 1;
+            line_start = i + 1;
+        }
+    }
     // Calculate the correct UTF-16 code unit.
     // The LSP doesn't use characters for columns, but instead for some reason they chose to use
     // UTF-16 code units.
     // If not not explicitly handled as such, passing a UTF-8 char column position would result
     // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
-    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
-    Position::new(line_idx as u32, col_idx as u32)
+    let col_idx = before[line_start..].encode_utf16().count();
+    Position::new(line_idx, col_idx as u32)
 }
 
 fn to_lsp_sev(sev: miette::Severity) -> DiagnosticSeverity {
-- 
2.43.0

