From 54438f4ddf19ff2260e2f2c2417949645e1868f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 01/17] fix: compare the orientations of both fields in bundle
 type equivalence

---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From 61a45661ad9e10bc12d375b32b8cd4eb1bc51f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/17] fix: treat equal reset kinds as equivalent and
 combinable types

---
 src/types/ground.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..dc1f1d7 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
@@ -101,6 +102,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From 5ca9bd8450c3e48ec5e6f39e09804952fbafd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 03/17] fix: print the info attached to an invalidation

---
 src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..497681d 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,7 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From f84e51e8a8526b44a51f4cb93ca916252ca1fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 04/17] fix: keep floating point parameters floating point when
 printing

---
 src/module.rs         | 1 +
 src/module/parsers.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/module.rs b/src/module.rs
index b221804..5f82705 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,7 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 4f817d1..9b29a00 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value};
+use nom::combinator::{iterator, map, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -164,7 +164,7 @@ pub fn param_value(input: &str) -> IResult<super::ParamValue> {
     use super::ParamValue as PV;
 
     alt((
-        map(float, PV::Double),
+        map(verify(float, |v: &f64| v.is_finite()), PV::Double),
         map(decimal, PV::Int),
         map(
             tuple((chr('"'), |i| unquoted_string(i, &['\n', '\t', '"']), chr('"'))),
-- 
2.43.0


From 37a6c4994b79c29aabb7eb0392b050a82768258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 05/17] fix: reject printf statements with too few arguments

---
 src/stmt/parsers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..91e40b9 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -52,6 +52,9 @@ pub fn stmt<'i>(
     indentation: &'_ mut Indentation,
 ) -> IResult<'i, super::Statement> {
     use super::{Kind, Statement as S};
+    use nom::error::{ErrorKind, ParseError};
+
+    use crate::parsers::Error;
     use print::PrintElement as P;
 
     let indent = indentation.clone().into_parser();
@@ -120,11 +123,14 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    ps.map(|ps| (i, ps)).ok_or_else(
+                        || nom::Err::Error(Error::from_error_kind(i, ErrorKind::SeparatedNonEmptyList))
+                    )
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From de1d08f8f182f91a4675168519e8c84185aec9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 06/17] fix: accept empty format strings

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 91e40b9..29954ec 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -119,7 +119,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From b61841e79b4d8c82d564a899b6a0969925ac20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 07/17] fix: reject empty identifiers and field names

---
 src/parsers.rs       | 4 ++--
 src/types/parsers.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..8911c6f 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,7 +5,7 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
+use nom::bytes::complete::take_while1;
 use nom::combinator::{map, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
@@ -70,6 +70,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From fa9cce1256549cc3458f2b655b7ab97c61ba06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 08/17] fix: reject literals too wide for a width instead of
 panicking

---
 src/expr/parsers.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..d99219d 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,22 +26,19 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
+                let width = width.or_else(|| value.bits().try_into().ok())?;
+                Some(E::UIntLiteral{value, width})
             }
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
                 let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
+                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))?;
+                Some(E::SIntLiteral{value, width})
             }
         ),
         map(
-- 
2.43.0


From cab96f527123729d4814d8c6641cac797c8d9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 09/17] fix: derive the width of bit extractions without
 overflow

---
 src/expr/primitive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..7d4d497 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,12 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
+                (Some(l), Some(h)) => h.checked_sub(*l).and_then(|w| w.checked_add(1)),
+                (Some(n), None)    => t.width().and_then(|w| w.checked_sub(*n)),
+                (None,    Some(n)) => Some(*n),
+                (None,    None)    => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From 4c2477a0efcaa45e4da91e95319fba4aa961df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 10/17] fix: read and print the operands of bits in the order
 the FIRRTL specification defines

---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index d99219d..7ced3c5 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -127,7 +127,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 7d4d497..f1ffae1 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -289,7 +289,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 36aee65a06e8e2ff9f696fb570d300d447809c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 11/17] fix: add up widths for concatenations

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index f1ffae1..1b705f4 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,7 +226,7 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
                 (Some(l), Some(h)) => h.checked_sub(*l).and_then(|w| w.checked_add(1)),
-- 
2.43.0


From 61b9f1ba7af1622381bfd9df954ba1a53d973995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 12/17] fix: keep unknown widths unknown when padding

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1b705f4..dd488b8 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,7 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From 62cef07161a23417096f1b66b3e2383edef28655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 13/17] fix: compute the points of precision changes without
 truncation

---
 src/expr/primitive.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index dd488b8..a571744 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -236,17 +236,16 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
+                w.and_then(|w| p.map(|p| i32::from(w) - i32::from(p) + i32::from(*bits)))
                     .and_then(|w| w.try_into().ok()),
-                p
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From 546d97d08c6777b79a3fa2e0d298049e65c0317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 14/17] fix: report errors in modules following the top module

---
 src/circuit.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..473ffb1 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -158,15 +158,8 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
 
     /// Try to create the requested circuit, consuming the iterator
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
-        let info = self.info;
-        match self.top_module {
-            TopState::Name(n)   => self
-                .modules
-                .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
-                .map(|r| r.map_err(Into::into))
-                .unwrap_or_else(|| Err("top module not found".to_owned().into())),
-            TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        self.try_for_each(|m| m.map(|_| ())).map_err(Into::into)?;
+        self.circuit().ok_or_else(|| "top module not found".to_owned().into())
     }
 }
 
-- 
2.43.0


From 881cff2927d24fa4029e24b79192144caa218076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 15/17] fix: print the parameters of external modules in a
 defined order

---
 src/module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/module.rs b/src/module.rs
index 5f82705..5d0b1a1 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -110,8 +110,10 @@ impl DisplayIndented for Module {
                 .try_for_each(|s| DisplayIndented::fmt(s, &mut indentation, f)),
             Kind::External{defname, params} => {
                 defname.as_ref().map(|n| writeln!(f, "{}defname = {}", indentation.lock(), n)).transpose()?;
+                let mut params: Vec<_> = params.iter().collect();
+                params.sort_by_key(|(k, _)| *k);
                 params
-                    .iter()
+                    .into_iter()
                     .try_for_each(|(k, v)| writeln!(f, "{}parameter {} = {}", indentation.lock(), k, v))
             },
         }
-- 
2.43.0


From 77d62ce42b2c4bde4ab0c051747a2cd7ba88c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 16/17] fix: parse bundle fields named flip

---
 src/types/parsers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 8911c6f..9a4ef7a 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -6,10 +6,10 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::bytes::complete::take_while1;
-use nom::combinator::{map, opt, value};
+use nom::combinator::{map, not, opt, peek, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -45,7 +45,7 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((opt(terminated(kw("flip"), peek(not(spaced(op(":")))))), spaced(field_name), spaced(op(":")), spaced(r#type))),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
-- 
2.43.0


From e20ca18fd654a6af75cf3faa3e34fe241e134f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 17/17] fix: allow statements starting with an entity named
 else after a conditional

---
 src/stmt/parsers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 29954ec..cb54685 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
-use nom::combinator::{iterator, map, opt, value, verify};
+use nom::combinator::{iterator, map, opt, peek, value, verify};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -172,7 +172,13 @@ fn indented_condition<'i>(
 
     let (input, when) = stmts(ctx.sub(), input, &mut indentation.sub())?;
 
-    let (input, r#else) = if let Ok((i, _)) = tuple((indentation.clone().parser(), kw("else")))(input) {
+    let r#else = tuple((
+        indentation.clone().parser(),
+        kw("else"),
+        peek(alt((spaced(op(":")), spaced(kw("when"))))),
+    ))(input);
+
+    let (input, r#else) = if let Ok((i, _)) = r#else {
         if let Ok((i, _)) = tuple((spaced(op(":")), info, le))(i) {
             stmts(ctx.sub(), i, &mut indentation.sub())
         } else {
-- 
2.43.0

