From 101611c3777447a2afc76ca90b1a4e36cfab6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/11] fix: escape names when displaying a normalized path

Names containing a quote, a backslash, or a control character produced a
string that is not a Normalized Path (RFC 9535, 2.7), and that cannot be
parsed, or that identifies a different node.
---
 serde_json_path_core/src/path.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..c870f10 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -3,7 +3,7 @@
 //! [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
 use std::{
     cmp::Ordering,
-    fmt::Display,
+    fmt::{Display, Write},
     slice::{Iter, SliceIndex},
 };
 
@@ -192,7 +192,11 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => {
+                    write!(f, "[")?;
+                    write_quoted(f, name)?;
+                    write!(f, "]")?;
+                }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -200,6 +204,27 @@ impl Display for NormalizedPath<'_> {
     }
 }
 
+/// Write `s` as a single-quoted string literal, escaped as it is in a [Normalized Path][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
+pub(crate) fn write_quoted(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
+    f.write_char('\'')?;
+    for c in s.chars() {
+        match c {
+            '\u{0008}' => f.write_str(r"\b")?,
+            '\u{0009}' => f.write_str(r"\t")?,
+            '\u{000A}' => f.write_str(r"\n")?,
+            '\u{000C}' => f.write_str(r"\f")?,
+            '\u{000D}' => f.write_str(r"\r")?,
+            '\'' => f.write_str(r"\'")?,
+            '\\' => f.write_str(r"\\")?,
+            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
+            _ => f.write_char(c)?,
+        }
+    }
+    f.write_char('\'')
+}
+
 impl Serialize for NormalizedPath<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From f36aa7c3f3a06e3a89e2f284d6d47f6b40f110ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 02/11] fix: do not panic on a query ending within a unicode
 escape

The streaming `one_of` returns `Incomplete` at the end of the input, e.g.,
for `$["\u`, which the parser treats as unreachable.
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From 98e85560bea62484218b4f7287dadb1007b46eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 03/11] fix: accept lowercase hex digits in high surrogates

E.g., `"\ud83d\ude00"`; HEXDIG is case-insensitive.
---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From 8b10459fe406bdd6ee2f6c32341daf580efb973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 04/11] fix: accept blank space before descendant segments

RFC 9535, 2.1.1: `segments = *(S segment)`.
---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 9301a60976194d2f9ae93a5250287a292bf5f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 05/11] fix: report expected and received argument counts the
 right way around

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From af302a76715cf200b9ba8c44d4083cf29a2705fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 06/11] fix: do not match with an invalid regular expression

An invalid expression with unbalanced parentheses, e.g., `a)|(b`, became
a valid one when wrapped in a group by `match` and `search`; these must be
false if the expression is not valid (RFC 9535, 2.4.6 and 2.4.7).
---
 serde_json_path/src/parser/selector/function/registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..3c39995 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -57,7 +57,9 @@ fn count(nodes: NodesType) -> ValueType {
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
+            // check `r` on its own, as the group can make it valid, e.g., for "a)|(b"
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
@@ -71,7 +73,9 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
+            // check `r` on its own, as the group can make it valid, e.g., for "a)|(b"
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
-- 
2.43.0


From fa0f6be8cab66d221416a0ab028c1432c0ad4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 07/11] fix: give an exact size hint in the Locations and Nodes
 iterators

Both are `ExactSizeIterator`s, but had the default `(0, None)` as their
size hint, so that, e.g., `nodes().skip(1).len()` would panic.
---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From 82b1d72fa13c4f3eb5d9aff015826ad912599e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 08/11] fix: parse functions with a name that starts with a
 literal

A function called, e.g., `nullable`, or `true_for`, could not be used as an
argument, or in a comparison, as `null`, or `true` was parsed as a literal.
---
 serde_json_path/src/parser/primitive/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/mod.rs b/serde_json_path/src/parser/primitive/mod.rs
index 01a0c90..13c81e4 100644
--- a/serde_json_path/src/parser/primitive/mod.rs
+++ b/serde_json_path/src/parser/primitive/mod.rs
@@ -1,4 +1,10 @@
-use nom::{branch::alt, bytes::complete::tag, combinator::value};
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::satisfy,
+    combinator::{not, value},
+    sequence::terminated,
+};
 
 use super::PResult;
 
@@ -6,14 +12,19 @@ pub(crate) mod int;
 pub(crate) mod number;
 pub(crate) mod string;
 
+/// Check that a literal is not just the start of a function expression, e.g., `nullable(@)`
+fn not_function(input: &str) -> PResult<()> {
+    not(satisfy(|c| matches!(c, 'a'..='z' | '0'..='9' | '_' | '(')))(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_null(input: &str) -> PResult<()> {
-    value((), tag("null"))(input)
+    value((), terminated(tag("null"), not_function))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_bool(input: &str) -> PResult<bool> {
     let parse_true = value(true, tag("true"));
     let parse_false = value(false, tag("false"));
-    alt((parse_true, parse_false))(input)
+    terminated(alt((parse_true, parse_false)), not_function)(input)
 }
-- 
2.43.0


From d2718c7056a3ef1d3ed475881ff44c34461c8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 09/11] fix: accept function names that have a single character

RFC 9535, 2.4: `function-name = function-name-first *function-name-char`.
---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 4302cdfe00a1aaa4c73512750ed07cd59cdc39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 10/11] fix: accept logical expressions, and none, as function
 arguments

Function expressions with no arguments, or with a logical expression as an
argument, e.g., `f(@.a == 1)`, `f(!@.a)`, or `f(@.a && @.b)`, could not be
parsed, although functions can be declared with a `LogicalType` parameter,
or with no parameters.
---
 .../src/parser/selector/function/mod.rs       | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..b5a0b26 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
-use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::character::complete::{char, one_of};
+use nom::combinator::{cut, map_res, peek};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -15,6 +15,7 @@ use serde_json_path_core::spec::functions::{
 
 pub(crate) mod registry;
 
+use crate::parser::utils::uncut;
 use crate::parser::{parse_query, PResult};
 
 use self::registry::REGISTRY;
@@ -53,14 +54,28 @@ fn parse_function_name(input: &str) -> PResult<String> {
     )(input)
 }
 
+/// Parse an argument other than a logical expression, which could also be the start of one
+///
+/// E.g., `@.a` is the start of `@.a == 1`.
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
-    alt((
+fn parse_simple_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    let simple_arg = alt((
         map(parse_literal, FunctionExprArg::Literal),
         map(parse_singular_path, FunctionExprArg::SingularQuery),
         map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
-        map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
+        map(
+            preceded(peek(parse_function_name), parse_function_expr),
+            FunctionExprArg::FunctionExpr,
+        ),
+    ));
+    terminated(simple_arg, peek(pair(multispace0, one_of(",)"))))(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    alt((
+        parse_simple_function_argument,
+        map(uncut(parse_logical_or_expr), FunctionExprArg::LogicalExpr),
     ))(input)
 }
 
-- 
2.43.0


From a3613a94da17a7956f4744d6fb99ab9beefd983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 11/11] fix: name the variables of registered functions'
 evaluators apart

A function could not be registered if one of its parameters, other than the
last one, is called `v`, or has the name of the function, nor if the function
is called `v` and has parameters: the generated code did not compile.
---
 .../src/internal/common/define.rs             | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 8dd5f06..a9636a3 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,5 +1,5 @@
-use proc_macro2::{Ident, TokenStream};
-use quote::quote;
+use proc_macro2::{Ident, Span, TokenStream};
+use quote::{format_ident, quote};
 use syn::{ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
@@ -87,24 +87,26 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             })
         });
     };
+    // Produce identifiers for the evaluator's variables, which must not conflict with each other, nor
+    // with the name of the function:
+    let values = Ident::new("v", Span::mixed_site());
+    let arg_names: Vec<Ident> = args
+        .iter()
+        .map(|arg| format_ident!("arg_{}", arg.ident, span = Span::mixed_site()))
+        .collect();
     // Generate the code to declare each individual argument for evaluation, at query time:
-    let arg_declarations = args.iter().map(|arg| {
-        let FnArgument { ident, ty } = arg;
+    let arg_declarations = args.iter().zip(&arg_names).map(|(arg, ident)| {
+        let FnArgument { ident: _, ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #ident = #ty::try_from(v.pop_front().unwrap()).unwrap();
+            let #ident = #ty::try_from(#values.pop_front().unwrap()).unwrap();
         }
     });
-    // Produce the argument name identifiers:
-    let arg_names = args.iter().map(|arg| {
-        let FnArgument { ident, ty: _ } = arg;
-        ident
-    });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut v: std::collections::VecDeque<#core::JsonPathValue>| {
+            std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
                 return #name(#(#arg_names,)*).into()
             })
-- 
2.43.0

