From efdb5e7c2d4bae7bdc520e61c0e4417a3cd68412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 01/61] fix: read numbers with correct rounding

---
 src/common/mod.rs       |  1 +
 src/common/number.rs    | 57 +++++++++++++++++++++++++++++++++++++++++
 src/core/expr.rs        |  4 +--
 src/eval/stg/string.rs  |  3 +--
 src/eval/stg/syntax.rs  |  4 +--
 src/import/yaml.rs      |  6 ++---
 src/syntax/rowan/ast.rs |  2 +-
 7 files changed, 67 insertions(+), 10 deletions(-)
 create mode 100644 src/common/number.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 5a28197..eee06bb 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,5 +1,6 @@
 pub mod diagnostic_json;
 pub mod environment;
+pub mod number;
 pub mod prettify;
 pub mod serde_sorted;
 pub mod sourcemap;
diff --git a/src/common/number.rs b/src/common/number.rs
new file mode 100644
index 0000000..39c47f7
--- /dev/null
+++ b/src/common/number.rs
@@ -0,0 +1,57 @@
+//! Reading and comparing numbers without loss.
+
+use std::cmp::Ordering;
+use std::str::FromStr;
+
+use serde_json::Number;
+
+/// Read the decimal text of a number.
+///
+/// Accepts exactly what `serde_json` accepts, but rounds correctly:
+/// `serde_json`'s default float parser may be out in the last place.
+pub fn parse_number(text: &str) -> Option<Number> {
+    let number = Number::from_str(text).ok()?;
+    if number.is_f64() {
+        Number::from_f64(text.parse::<f64>().ok()?)
+    } else {
+        Some(number)
+    }
+}
+
+/// Integer value of a number held as an integer.
+pub fn as_integer(n: &Number) -> Option<i128> {
+    n.as_i64()
+        .map(i128::from)
+        .or_else(|| n.as_u64().map(i128::from))
+}
+
+/// The number holding an integer, if it is in range.
+pub fn from_integer(i: i128) -> Option<Number> {
+    i64::try_from(i)
+        .map(Number::from)
+        .or_else(|_| u64::try_from(i).map(Number::from))
+        .ok()
+}
+
+/// Compare two numbers by mathematical value.
+pub fn compare(x: &Number, y: &Number) -> Option<Ordering> {
+    match (as_integer(x), as_integer(y)) {
+        (Some(l), Some(r)) => Some(l.cmp(&r)),
+        (Some(l), None) => compare_integer_to_float(l, y.as_f64()?),
+        (None, Some(r)) => compare_integer_to_float(r, x.as_f64()?).map(Ordering::reverse),
+        (None, None) => x.as_f64()?.partial_cmp(&y.as_f64()?),
+    }
+}
+
+/// Compare an integer (within the range of i64 and u64) to a float.
+fn compare_integer_to_float(i: i128, f: f64) -> Option<Ordering> {
+    if f.is_nan() {
+        return None;
+    }
+    // Saturates well outside the range of `i`, so the order is unaffected.
+    let whole = f.trunc() as i128;
+    Some(
+        i.cmp(&whole)
+            .then_with(|| 0.0_f64.partial_cmp(&f.fract()).unwrap_or(Ordering::Equal)),
+    )
+}
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 0734705..c9eaa25 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -18,7 +18,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -26,7 +25,8 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text)
+            .ok_or_else(|| serde::de::Error::custom("invalid number"))
     }
 }
 use std::collections::HashMap;
diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8db957c..889cc38 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -31,7 +31,6 @@ use super::{
 };
 
 use regex::Regex;
-use serde_json::Number;
 
 /// Get (or store and get) regex from machine rcache
 ///
@@ -299,7 +298,7 @@ impl StgIntrinsic for NumParse {
     ) -> Result<(), ExecutionError> {
         let string = str_arg(machine, view, &args[0])?;
 
-        if let Ok(num) = str::parse::<Number>(&string) {
+        if let Some(num) = crate::common::number::parse_number(&string) {
             machine_return_num(machine, view, num)
         } else {
             Err(ExecutionError::BadNumberFormat(
diff --git a/src/eval/stg/syntax.rs b/src/eval/stg/syntax.rs
index 0d76286..052566a 100644
--- a/src/eval/stg/syntax.rs
+++ b/src/eval/stg/syntax.rs
@@ -20,7 +20,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -28,7 +27,8 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text)
+            .ok_or_else(|| serde::de::Error::custom("invalid number"))
     }
 }
 
diff --git a/src/import/yaml.rs b/src/import/yaml.rs
index 2c6e1f9..3bc5045 100644
--- a/src/import/yaml.rs
+++ b/src/import/yaml.rs
@@ -10,8 +10,8 @@ use codespan::{ByteIndex, ByteOffset, Span};
 use codespan_reporting::files::SimpleFiles;
 use lazy_static::lazy_static;
 use regex::{Regex, RegexSet};
+use std::convert::TryInto;
 use std::{collections::HashMap, iter};
-use std::{convert::TryInto, str::FromStr};
 use yaml_rust::parser::{Event, MarkedEventReceiver, Parser};
 use yaml_rust::scanner::{Marker, TScalarStyle, TokenType};
 
@@ -274,8 +274,8 @@ impl<'smap> Receiver<'smap> {
             Tag::Null => Ok(core::null(smid)),
             Tag::Bool => Ok(core::bool_(smid, parse_bool(&text))),
             Tag::Str => Ok(core::str(smid, text)),
-            Tag::Int | Tag::Float => serde_json::Number::from_str(&text)
-                .map_err(|_e| SourceError::InvalidNumber(text, self.file_id, span))
+            Tag::Int | Tag::Float => crate::common::number::parse_number(&text)
+                .ok_or(SourceError::InvalidNumber(text, self.file_id, span))
                 .map(|n| core::num(smid, n)),
             Tag::Timestamp => {
                 if self.data_only {
diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 3622362..0dc1d5e 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -221,7 +221,7 @@ ast_token!(Num, NUMBER);
 
 impl Num {
     pub fn value(&self) -> Option<Number> {
-        self.text().parse().ok()
+        crate::common::number::parse_number(self.text())
     }
 }
 
-- 
2.43.0


From 91a069e3ec14e25e95f2d5cbfac5dd7f0d77ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 02/61] fix: keep integers beyond the i64 range exact in
 arithmetic and comparison

---
 src/eval/stg/arith.rs | 134 +++++++++++++++++++-----------------------
 src/eval/stg/eq.rs    |  13 +---
 2 files changed, 65 insertions(+), 82 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 5f57315..073f2ad 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -5,7 +5,10 @@ use std::rc::Rc;
 use serde_json::Number;
 
 use crate::{
-    common::sourcemap::Smid,
+    common::{
+        number::{as_integer, compare, from_integer},
+        sourcemap::Smid,
+    },
     eval::{
         emit::Emitter,
         error::ExecutionError,
@@ -61,10 +64,20 @@ fn floor_mod_i64(a: i64, b: i64) -> Option<i64> {
     }
 }
 
+/// Floor division for integers beyond the i64 range; `b` is not zero.
+fn floor_div_i128(a: i128, b: i128) -> i128 {
+    let d = a / b;
+    if a % b != 0 && (a < 0) != (b < 0) {
+        d - 1
+    } else {
+        d
+    }
+}
+
 /// Convert a floored/truncated f64 to an integer Number when possible,
 /// falling back to f64 representation for values outside i64 range.
 fn num_from_floored(val: f64) -> Option<Number> {
-    if val.is_finite() && val >= i64::MIN as f64 && val <= i64::MAX as f64 {
+    if val.is_finite() && val >= i64::MIN as f64 && val < i64::MAX as f64 {
         let i = val as i64;
         if (i as f64) == val {
             return Some(Number::from(i));
@@ -111,13 +124,11 @@ impl StgIntrinsic for Add {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(total))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let total = l.checked_add(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(total))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let total = l.checked_add(r).and_then(from_integer).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, total)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l + r) {
                 machine_return_num(machine, view, ret)
@@ -178,13 +189,11 @@ impl StgIntrinsic for Sub {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_sub(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let result = l.checked_sub(r).and_then(from_integer).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l - r) {
                 machine_return_num(machine, view, ret)
@@ -245,13 +254,11 @@ impl StgIntrinsic for Mul {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(product))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let product = l.checked_mul(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(product))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let product = l.checked_mul(r).and_then(from_integer).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, product)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l * r) {
                 machine_return_num(machine, view, ret)
@@ -319,13 +326,11 @@ impl StgIntrinsic for Div {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_div(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let result = from_integer(floor_div_i128(l, r)).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).floor();
             if let Some(n) = num_from_floored(result) {
@@ -381,13 +386,11 @@ impl StgIntrinsic for Mod {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_rem(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let result = from_integer(l - r * floor_div_i128(l, r)).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let q = (l / r).floor();
             let result = l - r * q;
@@ -519,24 +522,11 @@ fn arithmetic_wrapper(index: usize) -> LambdaForm {
     binary_wrapper(index)
 }
 
-/// Ordering comparison between two numbers, trying i64, u64, then f64
-/// representations. Returns the `std::cmp::Ordering` or an error if
-/// the numbers cannot be compared.
+/// Ordering comparison between two numbers by mathematical value.
+/// Returns the `std::cmp::Ordering` or an error if the numbers cannot
+/// be compared.
 fn num_ord(smid: Smid, x: &Number, y: &Number) -> Result<std::cmp::Ordering, ExecutionError> {
-    if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-        Ok(l.cmp(&r))
-    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-        Ok(l.cmp(&r))
-    } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-        l.partial_cmp(&r)
-            .ok_or_else(|| ExecutionError::NumericDomainError(smid, x.clone(), y.clone()))
-    } else {
-        Err(ExecutionError::NumericDomainError(
-            smid,
-            x.clone(),
-            y.clone(),
-        ))
-    }
+    compare(x, y).ok_or_else(|| ExecutionError::NumericDomainError(smid, x.clone(), y.clone()))
 }
 
 /// Polymorphic ordered comparison. Dispatches on native type, computes
@@ -814,10 +804,14 @@ impl StgIntrinsic for Pow {
 
 /// Integer exponentiation with overflow checking
 fn checked_int_pow(base: i64, exp: u64) -> Option<i64> {
-    if exp > u32::MAX as u64 {
-        return None;
+    match u32::try_from(exp) {
+        Ok(exp) => base.checked_pow(exp),
+        Err(_) => match base {
+            0 | 1 => Some(base),
+            -1 => Some(if exp % 2 == 0 { 1 } else { -1 }),
+            _ => None,
+        },
     }
-    base.checked_pow(exp as u32)
 }
 
 impl CallGlobal2 for Pow {}
@@ -901,13 +895,11 @@ impl StgIntrinsic for Quot {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_div(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let result = l.checked_div(r).and_then(from_integer).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).trunc();
             if let Some(n) = num_from_floored(result) {
@@ -963,13 +955,11 @@ impl StgIntrinsic for Rem {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_rem(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            let result = l.checked_rem(r).and_then(from_integer).ok_or(
+                ExecutionError::NumericRangeError(machine.annotation(), x, y),
+            )?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l % r) {
                 machine_return_num(machine, view, ret)
@@ -1005,7 +995,7 @@ fn require_i64(n: &Number, smid: crate::common::sourcemap::Smid) -> Result<i64,
             )
         })
     } else if let Some(f) = n.as_f64() {
-        if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+        if f.fract() == 0.0 && f >= i64::MIN as f64 && f < i64::MAX as f64 {
             Ok(f as i64)
         } else {
             Err(ExecutionError::BitwiseIntegerRequired(
diff --git a/src/eval/stg/eq.rs b/src/eval/stg/eq.rs
index c3deaf8..d00c6a2 100644
--- a/src/eval/stg/eq.rs
+++ b/src/eval/stg/eq.rs
@@ -1,11 +1,12 @@
 //! EQ intrinsic
 
+use std::cmp::Ordering;
 use std::rc::Rc;
 
 use serde_json::Number;
 
 use crate::{
-    common::sourcemap::Smid,
+    common::{number::compare, sourcemap::Smid},
     eval::{
         emit::Emitter,
         error::ExecutionError,
@@ -80,15 +81,7 @@ fn binary_branch(tag: Tag) -> (Tag, Rc<StgSyn>) {
 
 /// Compare two numbers for equality
 fn num_eq(x: &Number, y: &Number) -> bool {
-    if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-        l == r
-    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-        l == r
-    } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-        l == r
-    } else {
-        false
-    }
+    compare(x, y) == Some(Ordering::Equal)
 }
 
 /// Compare two heap strings for equality
-- 
2.43.0


From 4b0ab1926ee41fd9d8074ccc1a37df08eec7643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 03/61] fix: float modulus keeps the divisor's sign

---
 src/eval/stg/arith.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 073f2ad..b9cd595 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -392,8 +392,13 @@ impl StgIntrinsic for Mod {
             )?;
             machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-            let q = (l / r).floor();
-            let result = l - r * q;
+            // The remainder is exact, so the result keeps the divisor's sign.
+            let rem = l % r;
+            let result = if rem != 0.0 && (rem < 0.0) != (r < 0.0) {
+                rem + r
+            } else {
+                rem
+            };
             if let Some(ret) = Number::from_f64(result) {
                 machine_return_num(machine, view, ret)
             } else {
-- 
2.43.0


From 23a6d1e5e31acf899ceb4f0bd493b585196b05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 04/61] fix: sort-nums keeps its numbers as they are

---
 src/eval/stg/list.rs    | 10 +++++-----
 src/eval/stg/support.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 9f2e3e5..8ae7824 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -3,7 +3,7 @@
 use std::convert::TryInto;
 
 use crate::{
-    common::sourcemap::Smid,
+    common::{number::compare, sourcemap::Smid},
     eval::{
         emit::Emitter,
         error::ExecutionError,
@@ -16,7 +16,7 @@ use crate::{
 
 use super::{
     force::SeqNumList,
-    support::{collect_num_list, machine_return_bool, machine_return_num_list, num_arg},
+    support::{collect_numbers, machine_return_bool, machine_return_numbers, num_arg},
     syntax::{
         dsl::{app_bif, case, data, f, force, lambda, local, lref, t, value},
         LambdaForm,
@@ -432,9 +432,9 @@ impl StgIntrinsic for SortNumList {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let mut numbers = collect_num_list(machine, view, args[0].clone())?;
-        numbers.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        machine_return_num_list(machine, view, numbers)
+        let mut numbers = collect_numbers(machine, view, args[0].clone())?;
+        numbers.sort_by(|a, b| compare(a, b).unwrap_or(std::cmp::Ordering::Equal));
+        machine_return_numbers(machine, view, numbers)
     }
 }
 
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 8ee86a8..9aef493 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -618,12 +618,22 @@ pub fn collect_num_list(
     view: MutatorHeapView<'_>,
     list_ref: Ref,
 ) -> Result<Vec<f64>, ExecutionError> {
+    let numbers = collect_numbers(machine, view, list_ref)?;
+    Ok(numbers.iter().map(|n| n.as_f64().unwrap_or(0.0)).collect())
+}
+
+/// Collect a number list without converting its numbers.
+pub fn collect_numbers(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    list_ref: Ref,
+) -> Result<Vec<Number>, ExecutionError> {
     let smid = machine.annotation();
     let items = data_list_arg(machine, view, list_ref)?;
     let mut numbers = Vec::new();
     for item in &items {
         match machine.value_native(view, item) {
-            Some(Native::Num(n)) => numbers.push(n.as_f64().unwrap_or(0.0)),
+            Some(Native::Num(n)) => numbers.push(n),
             Some(_) => {
                 return Err(ExecutionError::NotValue(
                     smid,
@@ -670,10 +680,22 @@ pub fn machine_return_num_list(
     machine: &mut dyn IntrinsicMachine,
     view: MutatorHeapView,
     list: Vec<f64>,
+) -> Result<(), ExecutionError> {
+    let numbers = list
+        .into_iter()
+        .map(|x| Number::from_f64(x).unwrap_or_else(|| Number::from(0)))
+        .collect();
+    machine_return_numbers(machine, view, numbers)
+}
+
+/// Return a list of boxed numbers as they are.
+pub fn machine_return_numbers(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView,
+    list: Vec<Number>,
 ) -> Result<(), ExecutionError> {
     let mut items = Vec::with_capacity(list.len());
-    for item in list {
-        let n = Number::from_f64(item).unwrap_or_else(|| Number::from(0));
+    for n in list {
         let native = machine.native_value(view, Native::Num(n))?;
         items.push(machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[native])?);
     }
-- 
2.43.0


From 16940fd1f4f8d7cef66b11429acbdb813c21c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 05/61] fix: an escape that starts a c-string segment may
 precede an interpolation

---
 src/syntax/rowan/string_lex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 96edbdd..4899cd1 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -368,6 +368,10 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
             }
             _ => {
                 // Regular literal content (includes handling backslash escapes)
+                if ch == '\\' {
+                    // The escaped character belongs to this literal
+                    self.bump();
+                }
                 Some(self.literal_content(start))
             }
         }
-- 
2.43.0


From 93608bbb48dee78eb342d33ce163fb4e805b6181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 06/61] fix: the type checker no longer builds cyclic row
 substitutions

---
 src/core/typecheck/unify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/typecheck/unify.rs b/src/core/typecheck/unify.rs
index a8a396a..53c96b1 100644
--- a/src/core/typecheck/unify.rs
+++ b/src/core/typecheck/unify.rs
@@ -414,7 +414,7 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows2.clone(),
                         }
                     };
-                    if !occurs(r1, &extra_ty) {
+                    if !occurs(r1, &apply_subst(&extra_ty, subst)) {
                         subst.insert(r1.clone(), extra_ty);
                     }
                 }
@@ -451,7 +451,7 @@ pub fn unify(t1: &Type, t2: &Type, subst: &mut Substitution) -> Result<(), Unify
                             rows: rows1.clone(),
                         }
                     };
-                    if !occurs(r2, &extra_ty) {
+                    if !occurs(r2, &apply_subst(&extra_ty, subst)) {
                         subst.insert(r2.clone(), extra_ty);
                     }
                 }
-- 
2.43.0


From 2379682fd038e2f96a71d205cf1f973375ff4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 07/61] fix: printf formats keep integers exact, honour # for
 hex and refuse oversized widths

---
 src/eval/stg/printf.rs | 56 +++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 659a7e6..57cd63b 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -149,7 +149,11 @@ fn parse_width(mut sub: &[u8]) -> (usize, &[u8]) {
     while let Some(&ch) = sub.first() {
         match ch {
             // https://rust-malaysia.github.io/code/2020/07/11/faster-integer-parsing.html#the-bytes-solution
-            b'0'..=b'9' => width = width * 10 + (ch & 0x0f) as usize,
+            b'0'..=b'9' => {
+                width = width
+                    .saturating_mul(10)
+                    .saturating_add((ch & 0x0f) as usize)
+            }
             _ => break,
         }
         sub = next_char(sub);
@@ -220,6 +224,11 @@ fn parse_format(format: &str) -> Option<Argument> {
     let (length, sub) = parse_length(sub);
     let ch = sub.first().unwrap_or(&0);
 
+    // The standard formatting machinery cannot take wider arguments.
+    if width > u16::MAX as usize || precision.is_some_and(|p| p > u16::MAX as usize) {
+        return None;
+    }
+
     let specifier = match ch {
         b'd' | b'i' => Specifier::Int,
         b'x' => Specifier::Hex,
@@ -282,11 +291,17 @@ fn write_str(
     precision: Option<usize>,
     string: &str,
 ) -> Result<(), PrintfError> {
-    let precision = precision.unwrap_or(string.len());
+    let string = match precision {
+        Some(p) => string
+            .char_indices()
+            .nth(p)
+            .map_or(string, |(end, _)| &string[..end]),
+        None => string,
+    };
     if flags.contains(Flags::LEFT_ALIGN) {
-        write!(w, "{string:width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:width$}").map_err(PrintfError::FmtError)
     } else {
-        write!(w, "{string:>width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:>width$}").map_err(PrintfError::FmtError)
     }
 }
 
@@ -322,7 +337,7 @@ fn write_numeric(
     }
 
     macro_rules! write_flags {
-        ($flags: expr) => {{
+        ($flags: expr, $alternate: expr) => {{
             match specifier {
                 Specifier::Octal => {
                     if let Some(i) = num.as_i64() {
@@ -333,14 +348,22 @@ fn write_numeric(
                 }
                 Specifier::Hex => {
                     if let Some(i) = num.as_i64() {
-                        write_using!($flags, "x", precision, i)
+                        if flags.contains(Flags::ALTERNATE_FORM) {
+                            write_using!($alternate, "x", precision, i)
+                        } else {
+                            write_using!($flags, "x", precision, i)
+                        }
                     } else {
                         Err(PrintfError::ConversionError)
                     }
                 }
                 Specifier::UpperHex => {
                     if let Some(i) = num.as_i64() {
-                        write_using!($flags, "X", precision, i)
+                        if flags.contains(Flags::ALTERNATE_FORM) {
+                            write_using!($alternate, "X", precision, i)
+                        } else {
+                            write_using!($flags, "X", precision, i)
+                        }
                     } else {
                         Err(PrintfError::ConversionError)
                     }
@@ -369,7 +392,12 @@ fn write_numeric(
                     }
                 },
                 _ => {
-                    if let Some(f) = num.as_f64() {
+                    // integers are written exactly, not by way of f64
+                    if let (Some(i), None) = (num.as_i64(), precision) {
+                        write_using!($flags, "", precision, i)
+                    } else if let (Some(i), None) = (num.as_u64(), precision) {
+                        write_using!($flags, "", precision, i)
+                    } else if let Some(f) = num.as_f64() {
                         write_using!($flags, "", precision, f)
                     } else {
                         Err(PrintfError::ConversionError)
@@ -381,20 +409,20 @@ fn write_numeric(
 
     if flags.contains(Flags::LEFT_ALIGN) {
         if flags.contains(Flags::PREPEND_PLUS) {
-            write_flags!("<+")
+            write_flags!("<+", "<+#")
         } else {
-            write_flags!("<")
+            write_flags!("<", "<#")
         }
     } else if flags.contains(Flags::PREPEND_PLUS) {
         if flags.contains(Flags::PREPEND_ZERO) {
-            write_flags!("+0")
+            write_flags!("+0", "+#0")
         } else {
-            write_flags!("+")
+            write_flags!("+", "+#")
         }
     } else if flags.contains(Flags::PREPEND_ZERO) {
-        write_flags!("0")
+        write_flags!("0", "#0")
     } else {
-        write_flags!("")
+        write_flags!("", "#")
     }
 }
 
-- 
2.43.0


From 709af4f329d5d53ffe7bdbc3c8112a3154b806dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 08/61] fix: group the pattern in str.starts-with?/ends-with?
 and double backslashes once in str.dq-escape

---
 lib/prelude.eu | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index b597d58..8c82919 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1144,11 +1144,11 @@ str: {
 
   ` { doc: "`starts-with?(re, s)` - true if string `s` starts with a match for regex `re`."
       type: s"string → string → bool" }
-  starts-with?(re, s): __STR_CONTAINS(["^", re] join-on(""), s)
+  starts-with?(re, s): __STR_CONTAINS(["^(?:", re, ")"] join-on(""), s)
 
   ` { doc: "`ends-with?(re, s)` - true if string `s` ends with a match for regex `re`."
       type: s"string → string → bool" }
-  ends-with?(re, s): __STR_CONTAINS([re, "$"] join-on(""), s)
+  ends-with?(re, s): __STR_CONTAINS(["(?:", re, ")$"] join-on(""), s)
 
   ` { doc: "`shell-escape(s)` - wrap string in single quotes for safe shell use. Embedded single quotes are escaped."
       type: s"string → string" }
@@ -1156,7 +1156,7 @@ str: {
 
   ` { doc: "dq-escape(s) - escape string for use inside double quotes in shell commands. Escapes backslash, dollar, backtick, and double quote."
       type: s"string → string" }
-  dq-escape(s): s replace(c"\\\\", c"\\\\\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
+  dq-escape(s): s replace(c"\\\\", c"\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
 }
 
 ##
-- 
2.43.0


From 73a23535f7d259e9b79895d08be061886a012e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 09/61] fix: str.join forces its separator

---
 src/eval/stg/string.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 889cc38..4f9a189 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -153,10 +153,14 @@ impl StgIntrinsic for Join {
                 // [seqlist] [list sep]
                 unbox_str(
                     local(2),
-                    // [unbox-sep] [sl] [l] [s]
-                    let_(
-                        vec![value(call::bif::join(lref(1), lref(0)))],
-                        data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                    // [unbox-sep] [seqlist] [list sep]
+                    force(
+                        local(0),
+                        // [sep] [unbox-sep] [seqlist] [list sep]
+                        let_(
+                            vec![value(call::bif::join(lref(2), lref(0)))],
+                            data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
+                        ),
                     ),
                 ),
             ),
-- 
2.43.0


From 1db68b3f4a99149e35060819507914987dd28701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 10/61] fix: window steps past the end of its list and rotate
 wraps around

---
 lib/prelude.eu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 8c82919..5b145e9 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1391,7 +1391,7 @@ drop(n, l): __IF((n zero?), l, drop(n dec, l tail))
 
 ` { doc: "`rotate(n, l)` - rotate list `l` left by `n` positions."
     type: s"number → [a] → [a]" }
-rotate(n, l): { s: split-at(n, l) }.(second(s) ++ first(s))
+rotate(n, l): if(l nil?, l, { s: split-at(n % count(l), l) }.(second(s) ++ first(s)))
 
 ` { doc: "`split-at(n, l)` - split list into two at `n`th item and return pair."
     type: s"number → [a] → ([a], [a])" }
@@ -1622,7 +1622,7 @@ any(p?, l): l map(p?) any-true?
 
 ` { doc: "`window(n, step, l)` - list of lists of sliding windows over list `l` of size `n` and offset `step`."
     type: s"number → number → [a] → [[a]]" }
-window(n, step, l): { chunk: l take(n) }.(if(count(chunk) >= n, cons(chunk, l drop(step) window(n, step)), []))
+window(n, step, l): { chunk: l take(n) }.(if(count(chunk) >= n, cons(chunk, (if((l take(step) count) < step, [], l drop(step))) window(n, step)), []))
 
 ` { doc: "`partition(n, l)` - list of lists of non-overlapping segments of list `l` of size `n`."
     type: s"number → [a] → [[a]]" }
-- 
2.43.0


From c3b00f273c5ffb2a6010336c1f7298775d779b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 11/61] fix: number?, string?, symbol? and datetime? recognise
 computed scalars

---
 src/eval/stg/list.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 8ae7824..a059d3a 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -10,7 +10,10 @@ use crate::{
         machine::intrinsic::{
             CallGlobal0, CallGlobal1, CallGlobal2, Const, IntrinsicMachine, StgIntrinsic,
         },
-        memory::{mutator::MutatorHeapView, syntax::Ref},
+        memory::{
+            mutator::MutatorHeapView,
+            syntax::{Native, Ref},
+        },
     },
 };
 
@@ -249,10 +252,11 @@ impl StgIntrinsic for IsNumber {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedNumber.tag()
-        );
+        let result = match machine.data_tag(view, &closure) {
+            Some(tag) => tag == DataConstructor::BoxedNumber.tag(),
+            // A computed scalar may be a bare native
+            None => matches!(machine.value_native(view, &closure), Some(Native::Num(_))),
+        };
         machine_return_bool(machine, view, result)
     }
 }
@@ -277,10 +281,11 @@ impl StgIntrinsic for IsString {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedString.tag()
-        );
+        let result = match machine.data_tag(view, &closure) {
+            Some(tag) => tag == DataConstructor::BoxedString.tag(),
+            // A computed scalar may be a bare native
+            None => matches!(machine.value_native(view, &closure), Some(Native::Str(_))),
+        };
         machine_return_bool(machine, view, result)
     }
 }
@@ -305,10 +310,11 @@ impl StgIntrinsic for IsSymbol {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedSymbol.tag()
-        );
+        let result = match machine.data_tag(view, &closure) {
+            Some(tag) => tag == DataConstructor::BoxedSymbol.tag(),
+            // A computed scalar may be a bare native
+            None => matches!(machine.value_native(view, &closure), Some(Native::Sym(_))),
+        };
         machine_return_bool(machine, view, result)
     }
 }
@@ -391,10 +397,11 @@ impl StgIntrinsic for IsZdt {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let closure = machine.resolve_closure(view, &args[0])?;
-        let result = matches!(
-            machine.data_tag(view, &closure),
-            Some(tag) if tag == DataConstructor::BoxedZdt.tag()
-        );
+        let result = match machine.data_tag(view, &closure) {
+            Some(tag) => tag == DataConstructor::BoxedZdt.tag(),
+            // A computed scalar may be a bare native
+            None => matches!(machine.value_native(view, &closure), Some(Native::Zdt(_))),
+        };
         machine_return_bool(machine, view, result)
     }
 }
-- 
2.43.0


From c1addff0217ff564d8f8940cc7359c9b552b165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 12/61] fix: sets and vecs keep large integers exact and list
 symbols by name

---
 src/eval/memory/set.rs  | 45 +++++++++++++++++++++++++++++++++++++----
 src/eval/stg/emit.rs    |  7 ++++---
 src/eval/stg/set.rs     |  4 ++--
 src/eval/stg/support.rs |  5 +++--
 4 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/eval/memory/set.rs b/src/eval/memory/set.rs
index dda6a45..2e6fd61 100644
--- a/src/eval/memory/set.rs
+++ b/src/eval/memory/set.rs
@@ -10,7 +10,7 @@ use ordered_float::OrderedFloat;
 use serde_json::Number;
 
 use super::alloc::StgObject;
-use super::symbol::SymbolId;
+use super::symbol::{SymbolId, SymbolPool};
 
 /// A hashable primitive value that can be stored in a set.
 ///
@@ -19,6 +19,8 @@ use super::symbol::SymbolId;
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub enum Primitive {
     Num(OrderedFloat<f64>),
+    /// An integer that has no exact `f64` form
+    Int(i128),
     Str(String),
     Sym(SymbolId),
 }
@@ -28,6 +30,7 @@ impl Hash for Primitive {
         std::mem::discriminant(self).hash(state);
         match self {
             Primitive::Num(n) => n.hash(state),
+            Primitive::Int(n) => n.hash(state),
             Primitive::Str(s) => s.hash(state),
             Primitive::Sym(id) => id.hash(state),
         }
@@ -35,8 +38,18 @@ impl Hash for Primitive {
 }
 
 impl Primitive {
-    /// Convert a `serde_json::Number` to a set-safe `OrderedFloat<f64>`.
+    /// Convert a `serde_json::Number` to a set-safe number, keeping integers
+    /// that `f64` cannot hold exactly.
     pub fn from_number(n: &Number) -> Self {
+        let integer = n
+            .as_i64()
+            .map(i128::from)
+            .or_else(|| n.as_u64().map(i128::from));
+        if let Some(i) = integer {
+            if i as f64 as i128 != i {
+                return Primitive::Int(i);
+            }
+        }
         Primitive::Num(OrderedFloat(n.as_f64().unwrap_or(0.0)))
     }
 
@@ -44,6 +57,10 @@ impl Primitive {
     pub fn to_number(&self) -> Option<Number> {
         match self {
             Primitive::Num(n) => Number::from_f64(n.into_inner()),
+            Primitive::Int(n) => i64::try_from(*n)
+                .map(Number::from)
+                .or_else(|_| u64::try_from(*n).map(Number::from))
+                .ok(),
             _ => None,
         }
     }
@@ -60,17 +77,27 @@ impl Ord for Primitive {
         use std::cmp::Ordering;
         match (self, other) {
             (Primitive::Num(a), Primitive::Num(b)) => a.cmp(b),
+            (Primitive::Int(a), Primitive::Int(b)) => a.cmp(b),
+            (Primitive::Int(a), Primitive::Num(b)) => cmp_int(*a, b.into_inner()),
+            (Primitive::Num(a), Primitive::Int(b)) => cmp_int(*b, a.into_inner()).reverse(),
             (Primitive::Str(a), Primitive::Str(b)) => a.cmp(b),
             (Primitive::Sym(a), Primitive::Sym(b)) => a.cmp(b),
             // Numbers before strings before symbols
-            (Primitive::Num(_), _) => Ordering::Less,
-            (_, Primitive::Num(_)) => Ordering::Greater,
+            (Primitive::Num(_) | Primitive::Int(_), _) => Ordering::Less,
+            (_, Primitive::Num(_) | Primitive::Int(_)) => Ordering::Greater,
             (Primitive::Str(_), Primitive::Sym(_)) => Ordering::Less,
             (Primitive::Sym(_), Primitive::Str(_)) => Ordering::Greater,
         }
     }
 }
 
+/// Order a large integer against a float by value; the two are never equal.
+fn cmp_int(i: i128, f: f64) -> std::cmp::Ordering {
+    // `i` lies within the 64-bit ranges, so rounding it cannot pass `f`
+    // without landing on it, where truncation decides.
+    (i as f64).total_cmp(&f).then_with(|| i.cmp(&(f as i128)))
+}
+
 /// A set of primitive values, stored on the heap.
 ///
 /// GC does not trace into set contents because primitives contain no
@@ -157,6 +184,16 @@ impl HeapSet {
         elems.sort();
         elems
     }
+
+    /// Return elements sorted, with symbols ordered by their names.
+    pub fn sorted_by_name(&self, pool: &SymbolPool) -> Vec<&Primitive> {
+        let mut elems: Vec<_> = self.elements.iter().collect();
+        elems.sort_by(|a, b| match (a, b) {
+            (Primitive::Sym(a), Primitive::Sym(b)) => pool.resolve(*a).cmp(pool.resolve(*b)),
+            _ => a.cmp(b),
+        });
+        elems
+    }
 }
 
 impl Clone for HeapSet {
diff --git a/src/eval/stg/emit.rs b/src/eval/stg/emit.rs
index 3247201..b61ec43 100644
--- a/src/eval/stg/emit.rs
+++ b/src/eval/stg/emit.rs
@@ -90,8 +90,9 @@ fn set_primitive_to_render_primitive(
     machine: &dyn IntrinsicMachine,
 ) -> Primitive {
     match prim {
-        SetPrimitive::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
+        SetPrimitive::Num(_) | SetPrimitive::Int(_) => {
+            let num = prim
+                .to_number()
                 .unwrap_or_else(|| serde_json::Number::from(0));
             Primitive::Num(num)
         }
@@ -114,7 +115,7 @@ fn emit_set(
         emitter,
         Event::OutputSequenceStart(metadata.clone()),
     )?;
-    for elem in set.sorted_elements() {
+    for elem in set.sorted_by_name(machine.symbol_pool()) {
         let prim = set_primitive_to_render_primitive(elem, machine);
         emit_scalar(machine, emitter, &RenderMetadata::empty(), &prim)?;
     }
diff --git a/src/eval/stg/set.rs b/src/eval/stg/set.rs
index 5c30fa3..2353a9a 100644
--- a/src/eval/stg/set.rs
+++ b/src/eval/stg/set.rs
@@ -165,7 +165,7 @@ impl StgIntrinsic for SetToList {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let set = set_arg(machine, view, &args[0])?;
-        let sorted = set.sorted_elements();
+        let sorted = set.sorted_by_name(machine.symbol_pool());
 
         // Box each element and assemble the (sorted) list via the neutral ABI.
         let mut items = Vec::with_capacity(sorted.len());
@@ -437,7 +437,7 @@ impl StgIntrinsic for SetSample {
 
         let floats = collect_num_list(machine, view, args[0].clone())?;
         let s = set_arg(machine, view, &args[1])?;
-        let elements = s.sorted_elements();
+        let elements = s.sorted_by_name(machine.symbol_pool());
         let len = elements.len();
         let count = floats.len().min(len);
 
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 9aef493..db76624 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -497,8 +497,9 @@ pub fn set_primitive_to_native(
 ) -> Result<Native, ExecutionError> {
     use crate::eval::memory::set::Primitive as SetPrim;
     match prim {
-        SetPrim::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
+        SetPrim::Num(_) | SetPrim::Int(_) => {
+            let num = prim
+                .to_number()
                 .unwrap_or_else(|| serde_json::Number::from(0));
             Ok(Native::Num(num))
         }
-- 
2.43.0


From 0f5c6580acb22070fda121c904dae3a7066e00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 13/61] fix: vec.nth refuses a negative index

---
 src/eval/stg/vec.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eval/stg/vec.rs b/src/eval/stg/vec.rs
index c1a2a17..9602c64 100644
--- a/src/eval/stg/vec.rs
+++ b/src/eval/stg/vec.rs
@@ -134,6 +134,14 @@ impl StgIntrinsic for VecNth {
             }
         };
         let v = vec_arg(machine, view, &args[1])?;
+        if let Native::Num(num) = &native_n {
+            if num.as_f64().is_some_and(|f| f < 0.0) {
+                return Err(ExecutionError::Panic(
+                    Smid::default(),
+                    format!("vec.nth: index {num} out of bounds (len {})", v.len()),
+                ));
+            }
+        }
         let prim = v.get(n).ok_or_else(|| {
             ExecutionError::Panic(
                 Smid::default(),
-- 
2.43.0


From cfb56ec267d1bfcace178772a4da438d39d4af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 14/61] fix: array functions accept a scalar operand and refuse
 infinite results

---
 src/eval/stg/arith.rs |  2 +-
 src/eval/stg/array.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index b9cd595..a963001 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -523,7 +523,7 @@ fn comparison_wrapper(index: usize) -> LambdaForm {
 /// methods are responsible for returning the correct result type:
 /// `machine_return_boxed_num` for scalar results, `machine_return_ndarray`
 /// for array results.
-fn arithmetic_wrapper(index: usize) -> LambdaForm {
+pub(crate) fn arithmetic_wrapper(index: usize) -> LambdaForm {
     binary_wrapper(index)
 }
 
diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 942b9ae..ec8c787 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -24,6 +24,7 @@ use crate::{
 };
 
 use super::{
+    arith::arithmetic_wrapper,
     force::SeqNumList,
     support::{
         machine_return_bool, machine_return_ndarray, machine_return_num,
@@ -537,6 +538,10 @@ impl StgIntrinsic for ArrayAdd {
         "ARRAY.ADD"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        arithmetic_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -558,6 +563,10 @@ impl StgIntrinsic for ArraySub {
         "ARRAY.SUB"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        arithmetic_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -579,6 +588,10 @@ impl StgIntrinsic for ArrayMul {
         "ARRAY.MUL"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        arithmetic_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -600,6 +613,10 @@ impl StgIntrinsic for ArrayDiv {
         "ARRAY.DIV"
     }
 
+    fn wrapper(&self, _annotation: Smid) -> LambdaForm {
+        arithmetic_wrapper(self.index())
+    }
+
     fn execute(
         &self,
         machine: &mut dyn IntrinsicMachine,
@@ -786,6 +803,24 @@ fn f64_vec_to_list(
     super::support::machine_return_num_list(machine, view, values.to_vec())
 }
 
+/// Return the result of array arithmetic, refusing infinities and NaN as
+/// scalar arithmetic does.
+fn return_finite_ndarray(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    arr: HeapNdArray,
+) -> Result<(), ExecutionError> {
+    if arr.data().iter().all(|x| x.is_finite()) {
+        machine_return_ndarray(machine, view, arr)
+    } else {
+        Err(ExecutionError::Panic(
+            machine.annotation(),
+            "array arithmetic result is not a finite number (division by zero or overflow)"
+                .to_string(),
+        ))
+    }
+}
+
 /// Dispatch a binary operation on arrays, supporting array+array and array+scalar
 pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
     machine: &mut dyn IntrinsicMachine,
@@ -805,7 +840,7 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
             let a_shape = a.shape().to_vec();
             let b_shape = b.shape().to_vec();
             match a.zip_with(&b, f) {
-                Some(result) => machine_return_ndarray(machine, view, result),
+                Some(result) => return_finite_ndarray(machine, view, result),
                 None => Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!("arrays have incompatible shapes {a_shape:?} and {b_shape:?} for element-wise operation"),
@@ -815,12 +850,12 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
         (Native::NdArray(a_ptr), Native::Num(n)) => {
             let a = view.scoped(a_ptr);
             let scalar = n.as_f64().unwrap_or(0.0);
-            machine_return_ndarray(machine, view, a.scalar_op(scalar, f))
+            return_finite_ndarray(machine, view, a.scalar_op(scalar, f))
         }
         (Native::Num(n), Native::NdArray(b_ptr)) => {
             let b = view.scoped(b_ptr);
             let scalar = n.as_f64().unwrap_or(0.0);
-            machine_return_ndarray(machine, view, b.scalar_op(scalar, |x, s| f(s, x)))
+            return_finite_ndarray(machine, view, b.scalar_op(scalar, |x, s| f(s, x)))
         }
         _ => Err(ExecutionError::ArrayShapeMismatch(
             smid,
-- 
2.43.0


From ce61690c1f160500e963d470fd323243322a1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 15/61] fix: sets, vecs and arrays compare by content

---
 src/eval/stg/eq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval/stg/eq.rs b/src/eval/stg/eq.rs
index d00c6a2..cf95197 100644
--- a/src/eval/stg/eq.rs
+++ b/src/eval/stg/eq.rs
@@ -273,6 +273,9 @@ impl StgIntrinsic for Eq {
             (Native::Num(ref nx), Native::Num(ref ny)) => num_eq(nx, ny),
             (Native::Str(sx), Native::Str(sy)) => str_eq(view, sx, sy),
             (Native::Sym(id_x), Native::Sym(id_y)) => id_x == id_y,
+            (Native::Set(sx), Native::Set(sy)) => *view.scoped(sx) == *view.scoped(sy),
+            (Native::Vec(vx), Native::Vec(vy)) => *view.scoped(vx) == *view.scoped(vy),
+            (Native::NdArray(ax), Native::NdArray(ay)) => *view.scoped(ax) == *view.scoped(ay),
             (l, r) => l == r,
         };
         machine_return_bool(machine, view, eq)
-- 
2.43.0


From c6685fc5690b17074ce9a41863b7af9db457771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 16/61] fix: cal.zdt uses the offset a named zone has on the
 date given

---
 src/eval/stg/time.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 97d6882..8d330c9 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -77,6 +77,25 @@ fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, Execution
     Err(ExecutionError::BadTimeZone(smid, tz_str.to_string()))
 }
 
+/// The offset that a TZ representation denotes at the local time `local`
+///
+/// The offset of an IANA zone depends on the date. A local time which occurs
+/// twice takes the earlier instant; `None` is returned for one which the zone
+/// skips.
+fn offset_at(
+    smid: Smid,
+    tz_str: &str,
+    local: &NaiveDateTime,
+) -> Result<Option<FixedOffset>, ExecutionError> {
+    match tz_str.parse::<Tz>() {
+        Ok(zone) => Ok(zone
+            .offset_from_local_datetime(local)
+            .earliest()
+            .map(|offset| offset.fix())),
+        Err(_) => offset_from_tz_str(smid, tz_str).map(Some),
+    }
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -139,7 +158,7 @@ impl StgIntrinsic for Zdt {
             .ok_or_else(err)?;
 
             let datetime = NaiveDateTime::new(date, time);
-            let offset = offset_from_tz_str(smid, &tz)?;
+            let offset = offset_at(smid, &tz, &datetime)?.ok_or_else(err)?;
             if let LocalResult::Single(zdt) = offset.from_local_datetime(&datetime) {
                 machine_return_zdt(machine, view, zdt)
             } else {
-- 
2.43.0


From ba4e27029c3ef660e68cc62d4e51620ef94b6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 17/61] fix: a timestamp beyond the calendar's range is an
 error, not a panic

---
 src/eval/stg/time.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 8d330c9..d7f181c 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -267,15 +267,12 @@ impl StgIntrinsic for ZdtFromEpoch {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let unix = num_arg(machine, view, &args[0])?;
-        if let Some(ts) = unix.as_i64() {
-            let zdt = DateTime::from(
-                Utc.timestamp_opt(ts, 0)
-                    .single()
-                    .expect("timestamp with zero nanoseconds is always valid"),
-            );
-            machine_return_zdt(machine, view, zdt)
-        } else {
-            Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
+        match unix
+            .as_i64()
+            .and_then(|ts| Utc.timestamp_opt(ts, 0).single())
+        {
+            Some(utc) => machine_return_zdt(machine, view, DateTime::from(utc)),
+            None => Err(ExecutionError::BadTimestamp(machine.annotation(), unix)),
         }
     }
 }
-- 
2.43.0


From f00180741ee085387dca6e3968e12f5c222c730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 18/61] fix: seconds of a date-time keep their fraction through
 fields and back

---
 src/eval/stg/time.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index d7f181c..c5994c0 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -96,6 +96,18 @@ fn offset_at(
     }
 }
 
+/// Split a number of seconds, as given by ZDT.FIELDS, into whole seconds and
+/// nanoseconds
+fn seconds_and_nanos(sec: &Number) -> Option<(u64, u32)> {
+    if let Some(whole) = sec.as_u64() {
+        return Some((whole, 0));
+    }
+    let seconds = sec.as_f64().filter(|s| (0.0..60.0).contains(s))?;
+    let whole = seconds.floor();
+    let nanos = ((seconds - whole) * 1e9).round().min(999_999_999.0);
+    Some((whole as u64, nanos as u32))
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -135,13 +147,13 @@ impl StgIntrinsic for Zdt {
             )
         };
 
-        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some(secs)) = (
+        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some((secs, nanos))) = (
             y.as_i64(),
             m.as_u64(),
             d.as_u64(),
             hour.as_u64(),
             min.as_u64(),
-            sec.as_u64(),
+            seconds_and_nanos(&sec),
         ) {
             let date = NaiveDate::from_ymd_opt(
                 yy.try_into().ok().ok_or_else(err)?,
@@ -150,10 +162,11 @@ impl StgIntrinsic for Zdt {
             )
             .ok_or_else(err)?;
 
-            let time = NaiveTime::from_hms_opt(
+            let time = NaiveTime::from_hms_nano_opt(
                 hours.try_into().ok().ok_or_else(err)?,
                 mins.try_into().ok().ok_or_else(err)?,
                 secs.try_into().ok().ok_or_else(err)?,
+                nanos,
             )
             .ok_or_else(err)?;
 
@@ -219,7 +232,7 @@ impl StgIntrinsic for ZdtFields {
         let d = dt.day();
         let hour = dt.hour();
         let min = dt.minute();
-        let sec = (dt.second() as f64) + (dt.timestamp_subsec_millis() as f64) / 1000f64;
+        let sec = (dt.second() as f64) + (dt.timestamp_subsec_nanos() as f64) / 1e9;
         let tz = dt.offset().to_string().replace(':', "");
 
         let mut fields: IndexMap<String, AbiClosure> = IndexMap::new();
-- 
2.43.0


From fba030b5d758be8f99fa664891b992e262fe21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 19/61] fix: random.int honours whole float and large bounds
 and refuses the rest; an empty vec shuffles

---
 lib/prelude.eu              |  2 +-
 src/eval/stg/stream_prng.rs | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 5b145e9..a7a68d6 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2076,7 +2076,7 @@ vec: {
   ` { doc: "`vec.shuffle(v)` - random monad action: return vec `v` in random order."
       type: s"vec → any → {..}" }
   shuffle(v, stream): {
-    needed: (v vec.len) - 1
+    needed: max(0, (v vec.len) - 1)
     floats: (stream random.as-list) take(needed)
     value: v shuffle-raw(floats)
     rest: stream-advance(needed, stream)
diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index a01e362..afce64b 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -31,6 +31,16 @@ use super::{
     tags::DataConstructor,
 };
 
+/// The value of a number which is a non-negative whole number, however it is
+/// represented
+fn whole_number(n: &Number) -> Option<u64> {
+    n.as_u64().or_else(|| {
+        n.as_f64()
+            .filter(|f| f.fract() == 0.0 && (0.0..18446744073709551616.0).contains(f))
+            .map(|f| f as u64)
+    })
+}
+
 /// Extract a `Native::Prng` state word from a ref, or return a
 /// `TypeMismatch` error.
 fn prng_arg(
@@ -103,7 +113,7 @@ fn machine_return_int_stream(
     int_val: u64,
     stream_state: u64,
 ) -> Result<(), ExecutionError> {
-    let num = machine.native_value(view, Native::Num(Number::from(int_val as i64)))?;
+    let num = machine.native_value(view, Native::Num(Number::from(int_val)))?;
     let boxed = machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[num])?;
     let stream = machine.native_value(view, Native::Prng(stream_state))?;
     machine.return_closure_list(view, vec![boxed, stream])
@@ -246,7 +256,12 @@ impl StgIntrinsic for StreamInt {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let n_num = num_arg(machine, view, &args[0])?;
-        let n = n_num.as_u64().unwrap_or(1).max(1);
+        let n = whole_number(&n_num).filter(|n| *n > 0).ok_or_else(|| {
+            ExecutionError::Panic(
+                machine.annotation(),
+                format!("random integer bound must be a positive whole number, got {n_num}"),
+            )
+        })?;
         let state = prng_arg(machine, view, &args[1])?;
         let (next_state, z) = splitmix64(state);
         let int_val = z % n;
-- 
2.43.0


From a2a6a04914e4b901670d6f036a4d2a91a1196ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 20/61] fix: a record spec rejects a value that is not a block
 instead of raising

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index a7a68d6..012f4a3 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2293,7 +2293,7 @@ as-spec(t):
           check: v lookup(k) match?(inner to-spec-td)
         }.(v has(k) then(check, is-opt))
 
-      pred(v): rec elements all(check-entry(v))
+      pred(v): (v block?) ∧ (rec elements all(check-entry(v)))
     }.pred
 
     to-spec-td[tag : rest]:
-- 
2.43.0


From 5e99e391913684478b1ddc4cdbb6889eab8a86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 21/61] fix: demand analysis no longer evaluates arguments and
 bindings the program never needs

---
 src/core/analyse_demand.rs | 186 ++++++++++++++++++++++++-------------
 src/core/demand.rs         |   9 ++
 src/eval/stg/compiler.rs   |   5 +-
 3 files changed, 133 insertions(+), 67 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 10c8e58..60072ec 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -150,31 +150,34 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     let sm = Demand::strict_multi;
     let lm = Demand::lazy_multi;
 
-    // List operations — strict in all arguments
-    // map(f, l): f applied to each element, l traversed
-    sigs.insert("map".into(), vec![sm(), sm()]);
-    // map2(f, l, m): zip-with
-    sigs.insert("map2".into(), vec![sm(), sm(), sm()]);
-    // filter(p?, l): predicate applied, list traversed
-    sigs.insert("filter".into(), vec![sm(), sm()]);
-    // foldl(op, i, l): all args needed
-    sigs.insert("foldl".into(), vec![sm(), sm(), sm()]);
-    // foldr(op, i, l): all args needed
-    sigs.insert("foldr".into(), vec![sm(), sm(), sm()]);
-    // take(n, l): count and list both needed
-    sigs.insert("take".into(), vec![sm(), sm()]);
+    // An argument is strict only if every call evaluates it: the function
+    // given to `map` is not evaluated when the list is empty.
+
+    // List operations
+    // map(f, l): l traversed
+    sigs.insert("map".into(), vec![lm(), sm()]);
+    // map2(f, l, m): m not reached when l is empty
+    sigs.insert("map2".into(), vec![lm(), sm(), lm()]);
+    // filter(p?, l): list traversed
+    sigs.insert("filter".into(), vec![lm(), sm()]);
+    // foldl(op, i, l): list traversed
+    sigs.insert("foldl".into(), vec![lm(), lm(), sm()]);
+    // foldr(op, i, l): list traversed
+    sigs.insert("foldr".into(), vec![lm(), lm(), sm()]);
+    // take(n, l): count needed, list only when it is not zero
+    sigs.insert("take".into(), vec![sm(), lm()]);
     // drop(n, l): count and list both needed
     sigs.insert("drop".into(), vec![sm(), sm()]);
     // nth(n, l): index and list both needed
     sigs.insert("nth".into(), vec![sm(), sm()]);
     // reverse(l): list needed
     sigs.insert("reverse".into(), vec![sm()]);
-    // append(l1, l2): both lists needed
-    sigs.insert("append".into(), vec![sm(), sm()]);
-    // zip-with(f, a, b): all needed
-    sigs.insert("zip-with".into(), vec![sm(), sm(), sm()]);
-    // zip(a, b): both needed (zip = zip-with(pair))
-    sigs.insert("zip".into(), vec![sm(), sm()]);
+    // append(l1, l2): l2 is the tail of the result
+    sigs.insert("append".into(), vec![sm(), lm()]);
+    // zip-with(f, a, b): b not reached when a is empty
+    sigs.insert("zip-with".into(), vec![lm(), sm(), lm()]);
+    // zip(a, b): zip = zip-with(pair)
+    sigs.insert("zip".into(), vec![sm(), lm()]);
     // count(l): list traversed
     sigs.insert("count".into(), vec![sm()]);
     // sum(l): list traversed
@@ -185,30 +188,30 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     // Strictness here would cause infinite forcing for recursive list
     // construction (iterate, map, scanl, etc.) over infinite lists.
     sigs.insert("cons".into(), vec![lm(), lm()]);
-    // snoc(x, l): both needed
-    sigs.insert("snoc".into(), vec![sm(), sm()]);
-    // mapcat(f, l): catenation applied via compose, but f is strict
-    sigs.insert("mapcat".into(), vec![sm()]);
-    // cross(f, xs, ys): all needed
-    sigs.insert("cross".into(), vec![sm(), sm(), sm()]);
-    // interleave(a, b): both needed
-    sigs.insert("interleave".into(), vec![sm(), sm()]);
-
-    // take-while / drop-while: predicate and list both strict
-    sigs.insert("take-while".into(), vec![sm(), sm()]);
-    sigs.insert("drop-while".into(), vec![sm(), sm()]);
+    // snoc(x, l): x is an element of the result
+    sigs.insert("snoc".into(), vec![lm(), sm()]);
+    // mapcat(f): concat ∘ map(f)
+    sigs.insert("mapcat".into(), vec![lm()]);
+    // cross(f, xs, ys): ys not reached when xs is empty
+    sigs.insert("cross".into(), vec![lm(), sm(), lm()]);
+    // interleave(a, b): starts with a
+    sigs.insert("interleave".into(), vec![sm(), lm()]);
+
+    // take-while / drop-while: list traversed
+    sigs.insert("take-while".into(), vec![lm(), sm()]);
+    sigs.insert("drop-while".into(), vec![lm(), sm()]);
 
     // Sorting
-    sigs.insert("sort-by".into(), vec![sm(), sm(), sm()]);
-    sigs.insert("sort-by-num".into(), vec![sm()]);
-    sigs.insert("sort-by-str".into(), vec![sm()]);
+    sigs.insert("sort-by".into(), vec![lm(), lm(), sm()]);
+    sigs.insert("sort-by-num".into(), vec![lm()]);
+    sigs.insert("sort-by-str".into(), vec![lm()]);
     sigs.insert("sort-nums".into(), vec![sm()]);
     sigs.insert("sort-strs".into(), vec![sm()]);
 
     // Grouping
-    sigs.insert("group-by".into(), vec![sm(), sm()]);
-    sigs.insert("discriminate".into(), vec![sm(), sm()]);
-    sigs.insert("group-consecutive-by".into(), vec![sm(), sm()]);
+    sigs.insert("group-by".into(), vec![lm(), sm()]);
+    sigs.insert("discriminate".into(), vec![lm(), lm()]);
+    sigs.insert("group-consecutive-by".into(), vec![lm(), sm()]);
 
     // Numeric — strict in all args
     sigs.insert("abs".into(), vec![sm()]);
@@ -223,15 +226,15 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     sigs.insert("quot".into(), vec![sm(), sm()]);
     sigs.insert("rem".into(), vec![sm(), sm()]);
 
-    // Combinators — strict in function arg, lazy in data args
-    sigs.insert("compose".into(), vec![sm(), sm(), sm()]);
-    sigs.insert("flip".into(), vec![sm(), sm(), sm()]);
+    // Combinators — strict in the function applied, lazy in data args
+    sigs.insert("compose".into(), vec![sm(), lm(), lm()]);
+    sigs.insert("flip".into(), vec![sm(), lm(), lm()]);
     sigs.insert("identity".into(), vec![sm()]);
     sigs.insert("apply".into(), vec![sm(), sm()]);
 
     // Conditionals — condition strict, branches lazy
     sigs.insert("then".into(), vec![lm(), lm(), sm()]);
-    sigs.insert("when".into(), vec![sm(), sm(), sm()]);
+    sigs.insert("when".into(), vec![sm(), lm(), lm()]);
 
     // Lookup functions — strict in key/object args
     sigs.insert("has".into(), vec![sm(), sm()]);
@@ -239,31 +242,31 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
     sigs.insert("lookup-in".into(), vec![sm(), sm()]);
     sigs.insert("lookup-or".into(), vec![sm(), lm(), sm()]);
 
-    // Deep operations — strict in key/pattern and block
-    sigs.insert("deep-find".into(), vec![sm(), sm()]);
-    sigs.insert("deep-transform".into(), vec![sm(), sm()]);
-    sigs.insert("deep-query".into(), vec![sm(), sm()]);
+    // Deep operations
+    sigs.insert("deep-find".into(), vec![lm(), sm()]);
+    sigs.insert("deep-transform".into(), vec![sm(), lm()]);
+    sigs.insert("deep-query".into(), vec![lm(), lm()]);
 
     // Head/tail — strict in list
-    sigs.insert("head-or".into(), vec![sm(), sm()]);
-    sigs.insert("tail-or".into(), vec![sm(), sm()]);
+    sigs.insert("head-or".into(), vec![lm(), sm()]);
+    sigs.insert("tail-or".into(), vec![lm(), sm()]);
 
     // Rendering
     sigs.insert("render".into(), vec![sm()]);
     sigs.insert("render-as".into(), vec![sm(), sm()]);
     sigs.insert("parse-as".into(), vec![sm(), sm()]);
 
-    // Iterate — strict in initial value, function
-    sigs.insert("iterate".into(), vec![sm(), sm()]);
+    // Generators — their arguments are elements of the result
+    sigs.insert("iterate".into(), vec![lm(), lm()]);
     // range(b, e)
     sigs.insert("range".into(), vec![sm(), sm()]);
     // iota(n)
-    sigs.insert("iota".into(), vec![sm()]);
+    sigs.insert("iota".into(), vec![lm()]);
     // repeat(i)
-    sigs.insert("repeat".into(), vec![sm()]);
+    sigs.insert("repeat".into(), vec![lm()]);
 
     // Sliding / windowing
-    sigs.insert("over-sliding-pairs".into(), vec![sm(), sm()]);
+    sigs.insert("over-sliding-pairs".into(), vec![lm(), sm()]);
 
     sigs
 }
@@ -307,6 +310,23 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
     result
 }
 
+/// The demands an expression places on its free variables when it is not
+/// evaluated here but suspended (a list or block element, metadata, a
+/// lookup fallback): nothing in it is certain to be evaluated.
+fn suspended(env: DemandEnv) -> DemandEnv {
+    env.into_iter()
+        .map(|(k, d)| (k, d.suspended()))
+        .collect()
+}
+
+/// The demands of a lambda body on the variables it captures: the body runs
+/// once per call, and there may be any number of calls, including none.
+fn captured(env: DemandEnv) -> DemandEnv {
+    env.into_iter()
+        .map(|(k, d)| (k, d.scale(Demand::lazy_multi())))
+        .collect()
+}
+
 /// The demand analyser.
 pub struct DemandAnalyser {
     /// Intrinsic seed signatures.
@@ -368,7 +388,7 @@ impl DemandAnalyser {
                 let new_fb = if let Some(fb) = fallback {
                     let (new_fb, fb_env) = self.analyse_expr(fb);
                     // Fallback is lazy+once: merge with main env.
-                    env = merge_envs(&env, &fb_env);
+                    env = merge_envs(&env, &suspended(fb_env));
                     Some(new_fb)
                 } else {
                     None
@@ -383,7 +403,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &suspended(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::List(*s, new_xs)), env)
@@ -394,7 +414,7 @@ impl DemandAnalyser {
                 let mut new_entries = Vec::new();
                 for (k, v) in block_map.iter() {
                     let (new_v, v_env) = self.analyse_expr(v);
-                    env = merge_envs(&env, &v_env);
+                    env = merge_envs(&env, &suspended(v_env));
                     new_entries.push((k.clone(), new_v));
                 }
                 (
@@ -406,7 +426,7 @@ impl DemandAnalyser {
             Expr::Meta(s, e, m) => {
                 let (new_e, e_env) = self.analyse_expr(e);
                 let (new_m, m_env) = self.analyse_expr(m);
-                let env = merge_envs(&e_env, &m_env);
+                let env = merge_envs(&e_env, &suspended(m_env));
                 (RcExpr::from(Expr::Meta(*s, new_e, new_m)), env)
             }
 
@@ -415,7 +435,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &suspended(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::ArgTuple(*s, new_xs)), env)
@@ -614,7 +634,10 @@ impl DemandAnalyser {
             if binding_demand.cardinality != Cardinality::Absent
                 && binding_demand.cardinality != Cardinality::Unknown
             {
-                let shifted = unshift_env(&rhs_envs[i]);
+                let shifted = unshift_env(&rhs_envs[i])
+                    .into_iter()
+                    .map(|(k, d)| (k, d.scale(binding_demand)))
+                    .collect();
                 outer_env = merge_envs(&outer_env, &shifted);
             }
 
@@ -633,13 +656,14 @@ impl DemandAnalyser {
             // blob path never hits this: `inlinable_bindings` are peeled at
             // blob-gen time (`xtask`), so their injected values are already
             // bare `Lam`s here.
-            if let Expr::Lam(_, _, ref lam_scope) = &*peel_meta(&new_rhs_exprs[i]).inner {
-                let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
-                if let Some(sig) = self.signatures.get(&key) {
-                    self.named_signatures
-                        .insert(binding.name.clone(), sig.clone());
+            let sig = match &*peel_meta(&new_rhs_exprs[i]).inner {
+                Expr::Lam(_, _, lam_scope) => {
+                    let key = Rc::as_ptr(&lam_scope.body.inner) as usize;
+                    self.signatures.get(&key).cloned()
                 }
-            }
+                _ => None,
+            };
+            self.record_named_signature(&binding.name, sig.unwrap_or_default());
 
             new_bindings.push(CoreBinding::with_demand(
                 binding.name.clone(),
@@ -678,7 +702,13 @@ impl DemandAnalyser {
         self.signatures.insert(sig_key, sig);
 
         // The outer env is the body env with scope-0 entries removed
-        let outer_env = unshift_env(&body_env);
+        let outer_env = captured(unshift_env(&body_env));
+
+        // A parameter may share its name with a function: calls through it
+        // must not use that function's signature.
+        for name in &scope.pattern {
+            self.record_named_signature(name, Vec::new());
+        }
 
         let new_scope = Scope {
             pattern: scope.pattern.clone(),
@@ -688,6 +718,26 @@ impl DemandAnalyser {
         (RcExpr::from(Expr::Lam(s, inl, new_scope)), outer_env)
     }
 
+    /// Record what a call through `name` may assume about its arguments.
+    ///
+    /// Call sites only know the callee's name, so where several bindings
+    /// share one the recorded signature is what holds for all of them. An
+    /// empty signature (the name of something that is not a known lambda, or
+    /// of lambdas with different arities) promises nothing.
+    fn record_named_signature(&mut self, name: &str, sig: DemandSignature) {
+        match self.named_signatures.get_mut(name) {
+            None => {
+                self.named_signatures.insert(name.to_string(), sig);
+            }
+            Some(known) if known.len() != sig.len() => known.clear(),
+            Some(known) => {
+                for (k, d) in known.iter_mut().zip(sig) {
+                    *k = k.lub(d);
+                }
+            }
+        }
+    }
+
     /// Analyse an `App` expression.
     fn analyse_app(&mut self, s: Smid, f: &RcExpr, args: &[RcExpr]) -> (RcExpr, DemandEnv) {
         // Analyse the function
@@ -695,7 +745,11 @@ impl DemandAnalyser {
         let mut env = f_env;
 
         // Try to find the function's signature
-        let sig = self.lookup_signature(f);
+        // (a partial application evaluates none of its arguments, and may be
+        // called any number of times).
+        let sig = self
+            .lookup_signature(f)
+            .filter(|sig| args.len() >= sig.len());
 
         // Analyse each argument with the demand from the signature
         let mut new_args = Vec::with_capacity(args.len());
diff --git a/src/core/demand.rs b/src/core/demand.rs
index 27d8088..149b86b 100644
--- a/src/core/demand.rs
+++ b/src/core/demand.rs
@@ -228,6 +228,15 @@ impl Demand {
         }
     }
 
+    /// The demand of an expression that is suspended rather than evaluated
+    /// here: whatever it would evaluate is not certain to be evaluated.
+    pub fn suspended(self) -> Demand {
+        Demand {
+            strictness: Strictness::Lazy,
+            ..self
+        }
+    }
+
     /// Sequentially combine demands: used in both `self` and `other` contexts.
     ///
     /// Unlike `lub` (which combines alternative branches), `plus` combines
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 0447329..7f0912d 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -1178,7 +1178,10 @@ impl ProtoSyntax for ProtoAppGroup {
                 callee_name
                     .and_then(|name| compiler.prelude_demand_sigs.get(name))
                     .map(|v| v.as_slice())
-            });
+            })
+            // A partial application evaluates none of its arguments, and may
+            // be called any number of times.
+            .filter(|sigs| self.args.len() >= sigs.len());
 
         // Detect self-recursive call: callee name matches the
         // enclosing recursive binding.  The VM will resolve Ref::L
-- 
2.43.0


From 2f6b557fd205d62531e7015dd8411de2971ddda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 22/61] fix: a value stored in a list or block, or reached
 through an alias, is evaluated once however often it is used

---
 src/core/analyse_demand.rs | 34 ++++++++++++++++------------------
 src/core/demand.rs         | 10 ++++------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 60072ec..f0d10a8 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -12,7 +12,7 @@ use std::rc::Rc;
 
 use crate::common::sourcemap::Smid;
 use crate::core::binding::{CoreBinding, Scope, Var};
-use crate::core::demand::{Cardinality, Demand};
+use crate::core::demand::{Cardinality, Demand, Strictness};
 use crate::core::expr::*;
 use crate::eval::intrinsics;
 
@@ -277,7 +277,6 @@ pub fn build_prelude_signatures() -> HashMap<String, DemandSignature> {
 /// Used by `wrap.rs` to generate forcing STG wrappers, replacing the
 /// old `Intrinsic::strict_args()` consultation.
 pub fn strict_indices_for(name: &str) -> Vec<usize> {
-    use crate::core::demand::Strictness;
     build_intrinsic_signatures()
         .get(name)
         .map(|sig| {
@@ -312,19 +311,10 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
 
 /// The demands an expression places on its free variables when it is not
 /// evaluated here but suspended (a list or block element, metadata, a
-/// lookup fallback): nothing in it is certain to be evaluated.
+/// lookup fallback, a lambda body): nothing in it is certain to be
+/// evaluated, and it may be evaluated any number of times.
 fn suspended(env: DemandEnv) -> DemandEnv {
-    env.into_iter()
-        .map(|(k, d)| (k, d.suspended()))
-        .collect()
-}
-
-/// The demands of a lambda body on the variables it captures: the body runs
-/// once per call, and there may be any number of calls, including none.
-fn captured(env: DemandEnv) -> DemandEnv {
-    env.into_iter()
-        .map(|(k, d)| (k, d.scale(Demand::lazy_multi())))
-        .collect()
+    env.into_iter().map(|(k, d)| (k, d.suspended())).collect()
 }
 
 /// The demand analyser.
@@ -634,9 +624,19 @@ impl DemandAnalyser {
             if binding_demand.cardinality != Cardinality::Absent
                 && binding_demand.cardinality != Cardinality::Unknown
             {
+                // A binding that need not be evaluated demands nothing for
+                // certain. Its RHS is evaluated once at most, unless it just
+                // names another variable: that has no thunk of its own, and
+                // every use of the alias is a use of the variable.
+                let alias = matches!(&*peel_meta(&binding.expr).inner, Expr::Var(_, _));
+                let context = match (binding_demand.strictness, alias) {
+                    (_, true) => binding_demand,
+                    (Strictness::Strict, false) => Demand::strict_once(),
+                    (_, false) => Demand::lazy_once(),
+                };
                 let shifted = unshift_env(&rhs_envs[i])
                     .into_iter()
-                    .map(|(k, d)| (k, d.scale(binding_demand)))
+                    .map(|(k, d)| (k, d.scale(context)))
                     .collect();
                 outer_env = merge_envs(&outer_env, &shifted);
             }
@@ -702,7 +702,7 @@ impl DemandAnalyser {
         self.signatures.insert(sig_key, sig);
 
         // The outer env is the body env with scope-0 entries removed
-        let outer_env = captured(unshift_env(&body_env));
+        let outer_env = suspended(unshift_env(&body_env));
 
         // A parameter may share its name with a function: calls through it
         // must not use that function's signature.
@@ -818,8 +818,6 @@ pub fn print_demands(expr: &RcExpr) {
 }
 
 fn print_demands_inner(expr: &RcExpr, depth: usize) {
-    use crate::core::demand::{Cardinality, Strictness};
-
     match &*expr.inner {
         Expr::Let(_, scope, _) => {
             for b in &scope.pattern {
diff --git a/src/core/demand.rs b/src/core/demand.rs
index 149b86b..b6a80dc 100644
--- a/src/core/demand.rs
+++ b/src/core/demand.rs
@@ -228,13 +228,11 @@ impl Demand {
         }
     }
 
-    /// The demand of an expression that is suspended rather than evaluated
-    /// here: whatever it would evaluate is not certain to be evaluated.
+    /// The demand of an expression that is suspended in a data structure
+    /// rather than evaluated here: whatever it would evaluate is not certain
+    /// to be evaluated, and may be as often as the structure is consulted.
     pub fn suspended(self) -> Demand {
-        Demand {
-            strictness: Strictness::Lazy,
-            ..self
-        }
+        self.scale(Demand::lazy_multi())
     }
 
     /// Sequentially combine demands: used in both `self` and `other` contexts.
-- 
2.43.0


From 52704ccfae89d5ac24455a0ca7c09f9128c5ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 23/61] fix: taking apart a list cell or block no longer
 duplicates unevaluated fields

---
 src/eval/bytecode/machine.rs | 49 +++++++++++++++++++++++++++++++-----
 src/eval/machine/env.rs      | 10 ++++++++
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 58d3524..db85086 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -855,7 +855,8 @@ fn env_from_data_args(
 /// Build a branch/handler env frame by copying the constructor's field
 /// values (the copy path of `vm.rs` `env_from_data_args_copy`, `:978`). Used
 /// when the arg pattern cannot share backing (non-local refs, > 4 args, or an
-/// index reaching a deeper frame).
+/// index reaching a deeper frame). Fields still unevaluated are shared, not
+/// copied.
 fn env_from_data_args_copy(
     state: &BcMachineState,
     view: MutatorHeapView<'_>,
@@ -875,7 +876,8 @@ fn env_from_data_args_copy(
     let local = view.scoped(cons_env);
     let globals = view.scoped(state.globals);
 
-    let mut array = Array::with_capacity(&view, args.len());
+    let mut values: SmallVec<[BcValue; 4]> = SmallVec::with_capacity(args.len());
+    let mut unevaluated = false;
     for a in args {
         let v = match a {
             DecodedRef::Local(i) => (*local)
@@ -894,11 +896,46 @@ fn env_from_data_args_copy(
                 }
             },
         };
-        array.push(&view, v);
+        unevaluated |= is_update_thunk(&v);
+        values.push(v);
+    }
+
+    if !unevaluated {
+        return Ok(view
+            .alloc(BcEnvFrame::new(
+                Array::from_slice(&view, &values),
+                state.annotation,
+                Some(next),
+            ))?
+            .as_ptr());
+    }
+
+    // A copy of an unevaluated thunk would be evaluated, and updated, apart
+    // from the original: give each such field a frame of its own that shares
+    // the cell it lives in. Fields are laid out innermost frame first.
+    let mut env = next;
+    for (a, v) in args.iter().zip(values).rev() {
+        let cell = match a {
+            DecodedRef::Local(i) if is_update_thunk(&v) => (*local).shared_cell(&view, *i as usize),
+            DecodedRef::Global(i) if is_update_thunk(&v) => {
+                (*globals).shared_cell(&view, *i as usize)
+            }
+            _ => None,
+        };
+        let frame = match cell {
+            Some((backing, i)) if i <= u8::MAX as usize => {
+                BcEnvFrame::new_remapped(backing, &[i as u8], state.annotation, Some(env))
+            }
+            _ => BcEnvFrame::new(Array::from_slice(&view, &[v]), state.annotation, Some(env)),
+        };
+        env = view.alloc(frame)?.as_ptr();
     }
-    Ok(view
-        .alloc(BcEnvFrame::new(array, state.annotation, Some(next)))?
-        .as_ptr())
+    Ok(env)
+}
+
+/// Whether a value is a thunk whose first evaluation should update its cell.
+fn is_update_thunk(v: &BcValue) -> bool {
+    matches!(v, BcValue::Closure(c) if c.update())
 }
 
 /// Return a data constructor (`current` is the constructor closure) into
diff --git a/src/eval/machine/env.rs b/src/eval/machine/env.rs
index 2bb21a2..8cced15 100644
--- a/src/eval/machine/env.rs
+++ b/src/eval/machine/env.rs
@@ -465,6 +465,16 @@ where
         }
     }
 
+    /// The backing array holding the referenced cell, and the cell's physical
+    /// index in it, for building a shared-backing frame over a single cell.
+    pub(crate) fn shared_cell(
+        &self,
+        guard: &dyn MutatorScope,
+        idx: usize,
+    ) -> Option<(Array<C>, usize)> {
+        self.cell(guard, idx)
+    }
+
     /// DIAGNOSTIC ONLY (bead eu-qm7f, `EU_ENV_DEPTH_HISTOGRAM=1`): shadow-walk
     /// the same chain `cell()` would traverse for `idx`, purely to count hops
     /// into `env_depth_diag`'s histograms. Does not touch `self.bindings` or
-- 
2.43.0


From 8d3e1df5eefa7708303e6b3036bd28198bd6994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 24/61] =?UTF-8?q?fix:=20display=20a=20partial=20function?=
 =?UTF-8?q?=20type=20as=20(a=20=E2=86=92=20b)=3F,=20not=20a=20=E2=86=92=20?=
 =?UTF-8?q?b=3F?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/core/typecheck/types.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/typecheck/types.rs b/src/core/typecheck/types.rs
index 34d49fa..66c3353 100644
--- a/src/core/typecheck/types.rs
+++ b/src/core/typecheck/types.rs
@@ -684,10 +684,10 @@ impl fmt::Display for Type {
                 // Re-sugar `T | ExecutionError` or `ExecutionError | T` → `T?`.
                 if variants.len() == 2 {
                     if variants[1] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[0]);
+                        return fmt_partial(f, &variants[0]);
                     }
                     if variants[0] == Type::ExecutionError {
-                        return write!(f, "{}?", variants[1]);
+                        return fmt_partial(f, &variants[1]);
                     }
                 }
                 let mut iter = variants.iter();
@@ -716,6 +716,17 @@ impl fmt::Display for Type {
     }
 }
 
+/// Format `T | ExecutionError` as `T?`, parenthesising a `T` the postfix `?`
+/// would otherwise bind into.
+fn fmt_partial(f: &mut fmt::Formatter<'_>, ty: &Type) -> fmt::Result {
+    match ty {
+        Type::Function(_, _) | Type::Union(_) | Type::Forall(_, _) | Type::Lam(_, _) => {
+            write!(f, "({ty})?")
+        }
+        _ => write!(f, "{ty}?"),
+    }
+}
+
 /// Format a constructor application, re-sugaring known constructors.
 fn fmt_app(f: &mut fmt::Formatter<'_>, head: &Type, arg: &Type) -> fmt::Result {
     // Two-arg constructors: `App(App(Con("Lens"), a), b)` → `Lens(a, b)`
-- 
2.43.0


From 77b2756cc59a240ab025fcdee474eb0127e42901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 25/61] fix: type-str keeps 1-tuples, escaped literals and the
 scope of ? readable as types

---
 lib/reflect.eu | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/reflect.eu b/lib/reflect.eu
index a484a39..9ad51ea 100644
--- a/lib/reflect.eu
+++ b/lib/reflect.eu
@@ -65,7 +65,18 @@ type-str(td):
         , "{f-str} {x-str}"
         ])
 
-    tuple-str(ts): ts map(to-str) str.join-on(", ") "({})"
+    # A 1-tuple keeps its trailing comma: `(a)` is just `a` in parentheses.
+    tuple-str(ts):
+      { body: ts map(to-str) str.join-on(", ")
+        comma: ((ts count) = 1) then(",", "")
+      }."({body}{comma})"
+
+    # `?` binds tighter than `→` and `|`.
+    partial-parens: set.from-list[:t-fn, :t-union, :t-partial, :t-forall, :t-lam]
+
+    partial-str(td, s): ((td first) ∈ partial-parens) then("({s})?", "{s}?")
+
+    lit-str(s): s str.replace(c"\\\\", c"\\\\") str.replace(c"\"", c"\\\"") c"\"{}\""
 
     prefix-list-str(prefix, tail):
       { tail-str: to-str(tail)
@@ -83,13 +94,13 @@ type-str(td):
         , tag = :t-con     => "{r0}"
         , tag = :t-app     => app-str(r0, r1)
         , tag = :t-union   => rest map(to-str) str.join-on(" | ")
-        , tag = :t-partial => "{s0}?"
+        , tag = :t-partial => partial-str(r0, s0)
         , tag = :t-tuple   => tuple-str(rest)
         , tag = :t-prefix-list => prefix-list-str(r0, r1)
         , tag = :t-record  => record-str(r0, open-flag(rest))
         , tag = :t-var     => "{r0}"
         , tag = :t-lit-sym => ":{r0}"
-        , tag = :t-lit-str => c"\"{r0}\""
+        , tag = :t-lit-str => lit-str(r0)
         , tag = :t-mu      => "{r0}"
         , tag = :t-forall  => "forall {r0}. {s1}"
         , tag = :t-lam     => "λ{r0}. {s1}"
-- 
2.43.0


From 54a95102c710483e492b36279d93f2ae7171f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 26/61] fix: a function is never mistaken for the value its
 body would build

---
 src/eval/bytecode/machine.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index db85086..75ebd27 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -952,6 +952,10 @@ fn decode_cons(
     decoded: &DecodedProgram,
     c: &BcClosure,
 ) -> Option<(Tag, ArgOffsets)> {
+    // A function is not the data its body would build.
+    if c.arity() > 0 {
+        return None;
+    }
     let code = prog.code.as_slice();
     let mut pc = peek_pc(decoded, c);
     if Op::from_u8(read_u8(code, &mut pc)) != Some(Op::Cons) {
@@ -975,6 +979,7 @@ fn value_symbol(
     match value {
         BcValue::Native(Native::Sym(id)) => Some(id),
         BcValue::Native(_) => None,
+        BcValue::Closure(c) if c.arity() > 0 => None,
         BcValue::Closure(c) => {
             let code = prog.code.as_slice();
             let mut pc = peek_pc(decoded, &c);
@@ -4067,6 +4072,7 @@ impl BytecodeMachine<'_> {
     fn scalar_string_inner(&self, view: MutatorHeapView<'_>, value: &BcValue) -> Option<String> {
         match value {
             BcValue::Native(n) => scalar_from_native(&self.symbol_pool, view, n),
+            BcValue::Closure(c) if c.arity() > 0 => None,
             BcValue::Closure(c) => {
                 let code = self.program.code.as_slice();
                 let mut pc = peek_pc(&self.decoded, c);
@@ -4387,6 +4393,13 @@ impl BcBifContext<'_, '_> {
     ) -> Result<Native, ExecutionError> {
         match value {
             BcValue::Native(n) => Ok(n),
+            // A function is not an indirection to (or a case of) the value
+            // its body denotes, and its body reads the argument frame, which
+            // is not the closure's environment.
+            BcValue::Closure(c) if c.arity() > 0 => Err(ExecutionError::NotValue(
+                self.state.annotation,
+                "a function".to_string(),
+            )),
             BcValue::Closure(c) => {
                 let code = self.program.code.as_slice();
                 let mut pc = peek_pc(self.decoded, &c);
@@ -4479,6 +4492,10 @@ impl BcBifContext<'_, '_> {
         let AbiClosure::Byte(BcValue::Closure(c)) = value else {
             return None;
         };
+        // A function is not the data its body would build.
+        if c.arity() > 0 {
+            return None;
+        }
         let code = self.program.code.as_slice();
         let mut pc = peek_pc(self.decoded, c);
         if Op::from_u8(read_u8(code, &mut pc)) != Some(Op::Cons) {
-- 
2.43.0


From c6096329ed7f0bfae70aa1aaee1f3f94f2a183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 27/61] fix: a value reached through a lookup, an alias or an
 intrinsic's result is evaluated once

Looking a key up in a block entered a copy of the field's thunk, so every
b.k evaluated k again; forcing a strict alias counted as an extra use of the
variable it names; a variable looked into was counted as used once although
the lookup enters it twice; and STR, JOIN, FMT, BLOCK and ARR.GET put
non-updating closures into their results.
---
 src/core/analyse_demand.rs   |  10 ++-
 src/eval/bytecode/machine.rs | 123 ++++++++++++++++-------------------
 src/eval/stg/array.rs        |   4 +-
 src/eval/stg/block.rs        |   2 +-
 src/eval/stg/compiler.rs     |   8 ++-
 src/eval/stg/string.rs       |  11 ++--
 6 files changed, 82 insertions(+), 76 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index f0d10a8..1730cb3 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -372,8 +372,16 @@ impl DemandAnalyser {
             Expr::App(s, f, args) => self.analyse_app(*s, f, args),
 
             Expr::Lookup(s, obj, key, fallback) => {
-                // Object is strict+once: analyse it and collect its env.
+                // Object is strict: analyse it and collect its env.
                 let (new_obj, mut env) = self.analyse_expr(obj);
+                // It is compiled into both a direct lookup and the general
+                // one tried when that fails, so a variable looked into is
+                // entered more than once.
+                if matches!(&*new_obj.inner, Expr::Var(_, _)) {
+                    for d in env.values_mut() {
+                        d.cardinality = Cardinality::Multi;
+                    }
+                }
 
                 let new_fb = if let Some(fb) = fallback {
                     let (new_fb, fb_env) = self.analyse_expr(fb);
diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 75ebd27..27b7f3e 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -1032,6 +1032,9 @@ fn pair_key_symbol(
 /// scan of the entry list of `BlockPair`s (the perf index is skipped — a
 /// linear scan yields the identical result). `None` on miss / non-block.
 /// Translated from `block::lookup_lit_in_block` + `linear_scan_for_key`.
+///
+/// The value is given as the reference the pair holds and the frame it is to
+/// be resolved in, so that entering it updates the slot it lives in.
 fn bc_lookup_in_block(
     prog: &BytecodeProgram,
     decoded: &DecodedProgram,
@@ -1039,7 +1042,7 @@ fn bc_lookup_in_block(
     view: MutatorHeapView<'_>,
     block: &BcClosure,
     target: SymbolId,
-) -> Option<BcValue> {
+) -> Option<(RefPtr<BcEnvFrame>, DecodedRef)> {
     let (tag, offsets) = decode_cons(prog, decoded, block)?;
     if tag != DataConstructor::Block.tag() {
         return None;
@@ -1066,7 +1069,7 @@ fn bc_lookup_in_block(
             };
             let (_, poffs) = decode_cons(prog, decoded, pc)?;
             let val_ref = arg_ref(prog.code.as_slice(), *poffs.get(1)?).ok()?;
-            return resolve_ref(view, &state.constants, pc.env(), state.globals, val_ref).ok();
+            return Some((pc.env(), val_ref));
         }
         let tail_ref = arg_ref(prog.code.as_slice(), *loffs.get(1)?).ok()?;
         current = resolve_ref(view, &state.constants, c.env(), state.globals, tail_ref).ok()?;
@@ -1241,8 +1244,10 @@ pub fn return_data(
                         "bytecode: LookupLitForce block is not a closure".to_string(),
                     )
                 })?;
-                state.current = bc_lookup_in_block(prog, decoded, state, view, &block, key)
-                    .unwrap_or(BcValue::Closure(default_closure));
+                match bc_lookup_in_block(prog, decoded, state, view, &block, key) {
+                    Some((env, value)) => enter_ref(state, view, prog, decoded, env, value)?,
+                    None => state.current = BcValue::Closure(default_closure),
+                }
             } else {
                 let ann = if smid.is_valid() {
                     smid
@@ -2020,6 +2025,26 @@ fn enter_local(
     Ok(())
 }
 
+/// Enter whatever `dref` refers to, black-holing and memoising the slot of a
+/// thunk as [`enter_local`] and [`enter_global`] do.
+fn enter_ref(
+    state: &mut BcMachineState,
+    view: MutatorHeapView<'_>,
+    prog: &BytecodeProgram,
+    decoded: &DecodedProgram,
+    env: RefPtr<BcEnvFrame>,
+    dref: DecodedRef,
+) -> Result<(), ExecutionError> {
+    match dref {
+        DecodedRef::Local(i) => enter_local(state, view, prog, decoded, env, i as usize),
+        DecodedRef::Global(i) => enter_global(state, view, prog, decoded, i as usize),
+        DecodedRef::Value(_) => {
+            state.current = resolve_ref(view, &state.constants, env, state.globals, dref)?;
+            Ok(())
+        }
+    }
+}
+
 /// Enter a global slot, black-holing it and pushing an `Update` continuation
 /// if it is a thunk. Mirrors [`enter_local`] but targets the shared, long-lived
 /// globals frame, so a prelude global (stored in the blob as an arity-0
@@ -2415,19 +2440,15 @@ pub fn handle_op(
             let default_closure = BcClosure::new(default_off, env);
 
             // Resolve the object (a local or global) to a closure.
-            let (obj_slot, obj_value) = match obj {
-                DecodedRef::Local(i) => (
-                    Some(i as usize),
-                    view.scoped(env)
-                        .get(&view, i as usize)
-                        .ok_or(ExecutionError::BadEnvironmentIndex(i as usize))?,
-                ),
-                DecodedRef::Global(i) => (
-                    None,
-                    view.scoped(state.globals)
-                        .get(&view, i as usize)
-                        .ok_or(ExecutionError::BadGlobalIndex(i as usize))?,
-                ),
+            let obj_value = match obj {
+                DecodedRef::Local(i) => view
+                    .scoped(env)
+                    .get(&view, i as usize)
+                    .ok_or(ExecutionError::BadEnvironmentIndex(i as usize))?,
+                DecodedRef::Global(i) => view
+                    .scoped(state.globals)
+                    .get(&view, i as usize)
+                    .ok_or(ExecutionError::BadGlobalIndex(i as usize))?,
                 DecodedRef::Value(_) => {
                     return Err(ExecutionError::NotCallable(
                         smid,
@@ -2446,9 +2467,10 @@ pub fn handle_op(
             let is_block = decode_cons(prog, decoded, &obj_closure)
                 .is_some_and(|(t, _)| t == DataConstructor::Block.tag());
             if is_block {
-                state.current =
-                    bc_lookup_in_block(prog, decoded, state, view, &obj_closure, sym_id)
-                        .unwrap_or(BcValue::Closure(default_closure));
+                match bc_lookup_in_block(prog, decoded, state, view, &obj_closure, sym_id) {
+                    Some((env, value)) => enter_ref(state, view, prog, decoded, env, value)?,
+                    None => state.current = BcValue::Closure(default_closure),
+                }
             } else {
                 // Slow path: force the object, then do the lookup in the
                 // LookupLitForce continuation.
@@ -2458,21 +2480,7 @@ pub fn handle_op(
                     default_closure,
                 });
                 // Black-hole + Update if the object is a local thunk.
-                if let (Some(i), true) = (obj_slot, obj_closure.update()) {
-                    let hole = BcValue::Closure(BcClosure::new(state.blackhole, env));
-                    view.scoped(env).update(&view, i, hole)?;
-                    let annotation = if state.annotation.is_valid() {
-                        state.annotation
-                    } else {
-                        target_annotation(prog, decoded, &obj_closure)
-                    };
-                    state.stack.push(BcContinuation::Update {
-                        environment: env,
-                        index: i,
-                        annotation,
-                    });
-                }
-                state.current = BcValue::Closure(obj_closure);
+                enter_ref(state, view, prog, decoded, env, obj)?;
             }
         }
     }
@@ -2883,19 +2891,15 @@ pub fn handle_op_predecoded(
 
             let default_closure = BcClosure::new(instr.c, env);
 
-            let (obj_slot, obj_value) = match instr.second_ref() {
-                DecodedRef::Local(i) => (
-                    Some(i as usize),
-                    view.scoped(env)
-                        .get(&view, i as usize)
-                        .ok_or(ExecutionError::BadEnvironmentIndex(i as usize))?,
-                ),
-                DecodedRef::Global(i) => (
-                    None,
-                    view.scoped(state.globals)
-                        .get(&view, i as usize)
-                        .ok_or(ExecutionError::BadGlobalIndex(i as usize))?,
-                ),
+            let obj_value = match instr.second_ref() {
+                DecodedRef::Local(i) => view
+                    .scoped(env)
+                    .get(&view, i as usize)
+                    .ok_or(ExecutionError::BadEnvironmentIndex(i as usize))?,
+                DecodedRef::Global(i) => view
+                    .scoped(state.globals)
+                    .get(&view, i as usize)
+                    .ok_or(ExecutionError::BadGlobalIndex(i as usize))?,
                 DecodedRef::Value(_) => {
                     return Err(ExecutionError::NotCallable(
                         smid,
@@ -2913,30 +2917,17 @@ pub fn handle_op_predecoded(
             let is_block = decode_cons(prog, decoded, &obj_closure)
                 .is_some_and(|(t, _)| t == DataConstructor::Block.tag());
             if is_block {
-                state.current =
-                    bc_lookup_in_block(prog, decoded, state, view, &obj_closure, sym_id)
-                        .unwrap_or(BcValue::Closure(default_closure));
+                match bc_lookup_in_block(prog, decoded, state, view, &obj_closure, sym_id) {
+                    Some((env, value)) => enter_ref(state, view, prog, decoded, env, value)?,
+                    None => state.current = BcValue::Closure(default_closure),
+                }
             } else {
                 state.stack.push(BcContinuation::LookupLitForce {
                     key: sym_id,
                     smid,
                     default_closure,
                 });
-                if let (Some(i), true) = (obj_slot, obj_closure.update()) {
-                    let hole = BcValue::Closure(BcClosure::new(state.blackhole, env));
-                    view.scoped(env).update(&view, i, hole)?;
-                    let annotation = if state.annotation.is_valid() {
-                        state.annotation
-                    } else {
-                        target_annotation(prog, decoded, &obj_closure)
-                    };
-                    state.stack.push(BcContinuation::Update {
-                        environment: env,
-                        index: i,
-                        annotation,
-                    });
-                }
-                state.current = BcValue::Closure(obj_closure);
+                enter_ref(state, view, prog, decoded, env, instr.second_ref())?;
             }
         }
     }
diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index ec8c787..f65b73b 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -31,7 +31,7 @@ use super::{
         machine_return_num_list_of_lists, ndarray_arg, num_arg,
     },
     syntax::{
-        dsl::{app_bif, data, force, lambda, let_, local, lref, unbox_num, value},
+        dsl::{app_bif, data, force, lambda, let_, local, lref, thunk, unbox_num},
         LambdaForm,
     },
     tags::DataConstructor,
@@ -205,7 +205,7 @@ impl StgIntrinsic for ArrayGet {
                 force(
                     local(2),
                     let_(
-                        vec![value(app_bif(bif_index, vec![lref(1), lref(0)]))],
+                        vec![thunk(app_bif(bif_index, vec![lref(1), lref(0)]))],
                         data(DataConstructor::BoxedNumber.tag(), vec![lref(0)]),
                     ),
                 ),
diff --git a/src/eval/stg/block.rs b/src/eval/stg/block.rs
index a643cbe..69e84fa 100644
--- a/src/eval/stg/block.rs
+++ b/src/eval/stg/block.rs
@@ -75,7 +75,7 @@ impl StgIntrinsic for Block {
                 vec![
                     // [kvitems mapped] [list]
                     kv_items,
-                    value(app(lref(0), vec![lref(2), lref(0)])),
+                    thunk(app(lref(0), vec![lref(2), lref(0)])),
                 ],
                 data(DataConstructor::Block.tag(), vec![lref(1), no_index()]),
             ),
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 7f0912d..1679733 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -967,8 +967,12 @@ impl ProtoSyntax for ProtoLet {
                 b.demand,
                 binding_self_recurse,
             )?;
-            // Mark strict non-recursive bindings for eager Seq evaluation
-            if b.demand.strictness == Strictness::Strict && !b.demand.recursive {
+            // Mark strict non-recursive bindings for eager Seq evaluation. An
+            // alias of another variable has no thunk of its own: forcing it
+            // would be a use of that variable which demand analysis has not
+            // counted, evaluating a single-use variable twice.
+            let alias = matches!(&*b.expr.inner, Expr::Var(_, _));
+            if b.demand.strictness == Strictness::Strict && !b.demand.recursive && !alias {
                 if let Ref::L(n) = index {
                     binder.mark_strict(n);
                 }
diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 4f9a189..1130d6c 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -24,7 +24,10 @@ use super::{
         machine_return_str_list, machine_return_sym, str_arg, str_arg_ref, str_list_arg,
     },
     syntax::{
-        dsl::{atom, box_str, case, data, force, lambda, let_, local, lref, str, unbox_str, value},
+        dsl::{
+            atom, box_str, case, data, force, lambda, let_, local, lref, str, thunk, unbox_str,
+            value,
+        },
         LambdaForm,
     },
     tags::DataConstructor,
@@ -87,7 +90,7 @@ impl StgIntrinsic for Str {
         lambda(
             1,
             let_(
-                vec![value(case(
+                vec![thunk(case(
                     local(0),
                     vec![
                         (
@@ -158,7 +161,7 @@ impl StgIntrinsic for Join {
                         local(0),
                         // [sep] [unbox-sep] [seqlist] [list sep]
                         let_(
-                            vec![value(call::bif::join(lref(2), lref(0)))],
+                            vec![thunk(call::bif::join(lref(2), lref(0)))],
                             data(DataConstructor::BoxedString.tag(), vec![lref(0)]),
                         ),
                     ),
@@ -362,7 +365,7 @@ impl StgIntrinsic for Fmt {
         lambda(
             2, // [x fmtstring]
             let_(
-                vec![value(case(
+                vec![thunk(case(
                     local(0),
                     vec![
                         (
-- 
2.43.0


From 0301776c2a3d0b5d7726795b3018b9cb627f9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 28/61] fix: an operator alone in parentheses is a value even
 at the start of an expression

---
 src/core/desugar/rowan_ast.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 4f5dc0c..d12f090 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -1443,7 +1443,20 @@ impl Desugarable for Element {
             Element::ParenExpr(paren) => {
                 // ParenExpr contains a soup
                 if let Some(soup) = paren.soup() {
-                    soup.desugar(desugarer)
+                    let expr = soup.desugar(desugarer)?;
+                    // A lone operator in parentheses is a section, an operand
+                    // of the soup the parentheses stand in: keep it apart or
+                    // it would be read as an operator of that soup.
+                    let elements: Vec<Element> = soup.elements().collect();
+                    let lone_operator = matches!(elements.as_slice(), [element]
+                        if element.as_operator_identifier().is_some_and(|op| op.text() != "."));
+                    if lone_operator {
+                        let span = text_range_to_span(paren.syntax().text_range());
+                        let smid = desugarer.new_smid(span);
+                        Ok(RcExpr::from(Expr::Soup(smid, vec![expr], false)))
+                    } else {
+                        Ok(expr)
+                    }
                 } else {
                     let span = text_range_to_span(paren.syntax().text_range());
                     Err(CoreError::InvalidEmbedding(
-- 
2.43.0


From 2f7f781803e589d173ddd47289850769381f5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 29/61] fix: a self-recursive call shares the let-bound
 variables it passes on

The eager resolution of a self-recursive call's local arguments copied the
slot of a let-bound variable even when it held an unevaluated thunk, so that
the variable was evaluated once through the call and again by any other use.
---
 src/eval/stg/compiler.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 1679733..7d85181 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -470,6 +470,29 @@ impl Context<'_> {
         Ok(dsl::atom(self.lookup(bound_var)?))
     }
 
+    /// Whether the bound variable is a `let` binding which may be an
+    /// unevaluated thunk: its slot is shared by every reference to the
+    /// variable, so (unlike a parameter's) it must never be copied.
+    pub fn is_let_bound_thunk(&self, bound_var: &BoundVar) -> bool {
+        let mut scope = bound_var.scope;
+        let mut context = Some(self);
+        while let Some(frame) = context {
+            match frame.scope().map(|expr| &*expr.inner) {
+                None => {}
+                Some(Expr::Let(_, let_scope, _)) if scope == 0 => {
+                    return let_scope
+                        .pattern
+                        .get(bound_var.binder as usize)
+                        .is_some_and(|b| !matches!(&*b.expr.inner, Expr::Lam(..)));
+                }
+                Some(_) if scope == 0 => return false,
+                Some(_) => scope -= 1,
+            }
+            context = frame.next;
+        }
+        false
+    }
+
     /// Generate a STG syntax local ref corresponding to the specified
     /// Core bound variable
     pub fn lookup(&self, bound_var: &BoundVar) -> Result<Ref, CompileError> {
@@ -1195,10 +1218,14 @@ impl ProtoSyntax for ProtoAppGroup {
             .self_recurse_name
             .as_deref()
             .is_some_and(|name| callee_name == Some(name));
+        let shared_thunk = |v: &Var| matches!(v, Var::Bound(bv) if context.is_let_bound_thunk(bv));
         let mut arg_indexes: Vec<Box<dyn ProtoReference>> = vec![];
         for (i, arg) in self.args.iter().enumerate() {
             match &*arg.inner {
-                Expr::Var(s, v) => match v {
+                // A self-recursive call copies the slots of its local
+                // arguments, so a variable whose slot may hold a shared
+                // thunk is passed through a binding of its own.
+                Expr::Var(s, v) if !is_self_recursive || !shared_thunk(v) => match v {
                     Var::Bound(bv) => arg_indexes.push(Box::new(ProtoVar::new(bv.clone()))),
                     Var::Free(name) => arg_indexes.push(Box::new(ProtoRef::new(
                         compiler.resolve_free_var(*s, name)?,
-- 
2.43.0


From 3d5da6170547aede3cd75803c6188c4783c21de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 30/61] fix: merging nested lets keeps shadowed names apart

Re-flattening merged a chain of lets by name, so that a reference to a
binding which shadowed an outer one, or a global, was captured:
`{a: b * b, b: 10}.({b: a + 1}.(b + 2))` used the outer b.
---
 src/core/reflatten.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/core/reflatten.rs b/src/core/reflatten.rs
index 5f5057c..a474b7e 100644
--- a/src/core/reflatten.rs
+++ b/src/core/reflatten.rs
@@ -13,9 +13,10 @@
 //! `DefaultBlockLet` scopes are never merged — they represent block
 //! values, not function bindings.
 
-use crate::core::binding::{CoreBinding, Scope};
+use crate::core::binding::{CoreBinding, Scope, Var};
 use crate::core::demand::Demand;
 use crate::core::expr::{close_expr_vars, open_let_scope_full, Expr, LetType, RcExpr};
+use std::collections::HashSet;
 
 /// Run the re-flatten pass over an entire expression tree.
 pub fn reflatten(expr: &RcExpr) -> RcExpr {
@@ -151,7 +152,9 @@ fn is_mergeable_let(expr: &RcExpr) -> bool {
 /// Recursively collect bindings from a chain of nested Let/LetRec scopes.
 ///
 /// Opens each scope, appending bindings to `all_bindings` with their
-/// demand annotations preserved.  Returns the innermost non-Let body.
+/// demand annotations preserved.  Returns the innermost body which cannot
+/// be merged: one that is not a Let, or one which rebinds a name that the
+/// bindings collected so far bind or mention.
 fn collect_chain(
     scope: &Scope<Vec<CoreBinding<RcExpr>>, RcExpr>,
     all_bindings: &mut Vec<OpenBinding>,
@@ -168,7 +171,7 @@ fn collect_chain(
 
     // If the opened body is another mergeable Let, recurse.
     if let Expr::Let(_, inner_scope, inner_lt) = &*open_body.inner {
-        if *inner_lt == LetType::OtherLet {
+        if *inner_lt == LetType::OtherLet && !captures(inner_scope, all_bindings) {
             return collect_chain(inner_scope, all_bindings);
         }
     }
@@ -176,6 +179,38 @@ fn collect_chain(
     open_body
 }
 
+/// Whether merging `inner` with the bindings collected so far would change
+/// the meaning of a name: scopes are merged by name, so a name which means
+/// one thing outside `inner` and another within it would be captured.
+fn captures(inner: &Scope<Vec<CoreBinding<RcExpr>>, RcExpr>, all_bindings: &[OpenBinding]) -> bool {
+    let names: HashSet<&str> = inner.pattern.iter().map(|b| b.name.as_str()).collect();
+    all_bindings
+        .iter()
+        .any(|b| names.contains(b.name.as_str()) || mentions(&b.expr, &names))
+}
+
+/// Whether any of `names` occurs free in `expr`.
+fn mentions(expr: &RcExpr, names: &HashSet<&str>) -> bool {
+    match &*expr.inner {
+        Expr::Var(_, Var::Free(name)) => names.contains(name.as_str()),
+        Expr::Let(_, scope, _) => {
+            scope.pattern.iter().any(|b| mentions(&b.expr, names)) || mentions(&scope.body, names)
+        }
+        Expr::Lam(_, _, scope) => mentions(&scope.body, names),
+        Expr::App(_, f, args) => mentions(f, names) || args.iter().any(|x| mentions(x, names)),
+        Expr::Lookup(_, obj, _, fallback) => {
+            mentions(obj, names) || fallback.iter().any(|x| mentions(x, names))
+        }
+        Expr::List(_, xs) | Expr::ArgTuple(_, xs) | Expr::Soup(_, xs, _) => {
+            xs.iter().any(|x| mentions(x, names))
+        }
+        Expr::Block(_, block) => block.values().any(|x| mentions(x, names)),
+        Expr::Meta(_, e, m) => mentions(e, names) || mentions(m, names),
+        Expr::Operator(_, _, _, e) => mentions(e, names),
+        _ => false,
+    }
+}
+
 /// Close a set of opened bindings back into a single Let scope,
 /// preserving the demand annotation on each binding.
 fn close_let_scope_with_demand(
-- 
2.43.0


From cde314b392d357e654c87b8c3674bd4d2c174db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 31/61] hook: verification builds can vary the collection
 cadence (cfg euv)

---
 src/eval/bytecode/machine.rs | 20 +++++++++++++++++---
 src/eval/memory/heap.rs      |  5 +++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/eval/bytecode/machine.rs b/src/eval/bytecode/machine.rs
index 27b7f3e..7ae13bb 100644
--- a/src/eval/bytecode/machine.rs
+++ b/src/eval/bytecode/machine.rs
@@ -571,6 +571,20 @@ fn recycle_bif_args(state: &mut BcMachineState, frame: BifFrame) {
     state.bif_arg_pool.push(args);
 }
 
+/// Ticks between polls for collection. Verification builds (`--cfg euv`) can
+/// vary the cadence, so that collections fall at every point of a run.
+#[allow(unexpected_cfgs)]
+fn gc_check_freq() -> u32 {
+    #[cfg(euv)]
+    if let Some(n) = std::env::var("EUV_GC_TICKS")
+        .ok()
+        .and_then(|v| v.parse().ok())
+    {
+        return std::cmp::max(1, n);
+    }
+    500
+}
+
 /// One GC poll shared by every drive loop (`run`, `drive_whnf`,
 /// `drive_to_whnf`), so the interrupt check and collection cadence cannot drift
 /// between the three hand-written loops (eu-apn7). Returns `Err(Interrupted)`
@@ -3267,7 +3281,7 @@ impl<'a> BytecodeMachine<'a> {
     /// code. Polls for GC every 500 ticks (mirrors `Machine::run`, spec §6).
     pub fn run(&mut self, limit: Option<usize>) -> Result<Option<u8>, ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
-        let gc_check_freq: u32 = 500;
+        let gc_check_freq: u32 = gc_check_freq();
         let mut gc_countdown: u32 = gc_check_freq;
 
         while !self.state.terminated {
@@ -3718,7 +3732,7 @@ impl BytecodeMachine<'_> {
     /// identical across the two engines.
     fn drive_whnf(&mut self) -> Result<(), ExecutionError> {
         self.clock.switch(ThreadOccupation::Mutator);
-        let gc_check_freq: u32 = 500;
+        let gc_check_freq: u32 = gc_check_freq();
         let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
             gc_countdown -= 1;
@@ -4522,7 +4536,7 @@ impl BcBifContext<'_, '_> {
     /// terminates. Mirrors `evaluate_to_whnf_impl` (`vm.rs`).
     fn drive_to_whnf(&mut self) -> Result<(), ExecutionError> {
         let mut null = NullEmitter;
-        let gc_check_freq: u32 = 500;
+        let gc_check_freq: u32 = gc_check_freq();
         let mut gc_countdown: u32 = gc_check_freq;
         while !self.state.terminated {
             gc_countdown -= 1;
diff --git a/src/eval/memory/heap.rs b/src/eval/memory/heap.rs
index bb80161..47ce2d1 100644
--- a/src/eval/memory/heap.rs
+++ b/src/eval/memory/heap.rs
@@ -1764,7 +1764,12 @@ impl Heap {
         heap_state.finalise_evacuation();
     }
 
+    #[allow(unexpected_cfgs)]
     pub fn policy_requires_collection(&self) -> bool {
+        #[cfg(euv)]
+        if std::env::var_os("EUV_GC_TICKS").is_some() {
+            return true;
+        }
         if let Some(limit) = self.limit {
             let stats = self.stats();
             stats.blocks_allocated >= limit
-- 
2.43.0


From 8e5c70265ec1546b6f1c15d655cd9bb381dc1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 32/61] fix: the default of lookup-or is evaluated only when
 the key is absent

---
 src/core/analyse_demand.rs | 15 ++++-----------
 src/eval/intrinsics.rs     |  4 ++--
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 1730cb3..f80ca71 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -104,17 +104,10 @@ pub fn build_intrinsic_signatures() -> HashMap<String, DemandSignature> {
         vec![Demand::strict_once(), Demand::lazy_once()],
     );
 
-    // LOOKUPOR: obj strict+once, key strict+once, fallback lazy+once, (extra arg)
-    if let Some(sig) = sigs.get_mut("LOOKUPOR") {
-        // LOOKUPOR has 4 args: object(0), key(1), fallback(2), extra(3)
-        // object and key are strict; fallback is lazy+once
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
-        }
-    }
-    if let Some(sig) = sigs.get_mut("LOOKUPOR#") {
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
+    // LOOKUPOR: key(0) and object(2) strict+once, default(1) lazy+once
+    for name in ["LOOKUPOR", "LOOKUPOR#"] {
+        if let Some(sig) = sigs.get_mut(name) {
+            sig[1] = Demand::lazy_once();
         }
     }
 
diff --git a/src/eval/intrinsics.rs b/src/eval/intrinsics.rs
index 2ceb9c4..4041317 100644
--- a/src/eval/intrinsics.rs
+++ b/src/eval/intrinsics.rs
@@ -56,7 +56,7 @@ lazy_static! {
         Intrinsic { // 1
             name: "LOOKUPOR", // boxed sym
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 2
             name: "RENDER",
@@ -252,7 +252,7 @@ lazy_static! {
         Intrinsic { // 39
             name: "LOOKUPOR#",
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 40
             name: "CONS",
-- 
2.43.0


From a5af92a5214ecf4f8578bf9d7d79e3f482b36020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 33/61] fix: the parser keeps whitespace inside interpolations,
 reports unclosed brackets at the end of a text and never drops tokens

---
 src/syntax/rowan/parse.rs      | 47 +++++++++++++++++++++++++++++++---
 src/syntax/rowan/string_lex.rs | 24 ++++++++++++++---
 2 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index f0368f9..9a99f49 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -79,12 +79,18 @@ impl<'text> Parser<'text> {
     }
 
     /// Calculate the text range of the next token for when reporting errors.
+    /// At the end of the text this is the empty range there.
     fn next_range(&self) -> TextRange {
         let mut ch: TextSize = 0.into();
         for (_, s) in &self.tokens[0..self.next_token] {
             ch += TextSize::of(*s);
         }
-        TextRange::at(ch, TextSize::of(self.tokens[self.next_token].1))
+        let len = self
+            .tokens
+            .get(self.next_token)
+            .map(|(_, s)| TextSize::of(*s))
+            .unwrap_or_default();
+        TextRange::at(ch, len)
     }
 
     /// Calculate a text range covering the last consumed token and the next token.
@@ -345,7 +351,7 @@ impl<'text> Parser<'text> {
                     }
                 }
                 self.add_trivia();
-                if !self.expect(CLOSE_SQUARE) {
+                if !self.expect_close_square() {
                     // Recovery: consume to matching ']' or a block boundary.
                     self.recover_to(
                         CLOSE_SQUARE,
@@ -675,7 +681,7 @@ impl<'text> Parser<'text> {
             }
         }
         self.add_trivia();
-        self.expect(CLOSE_SQUARE);
+        self.expect_close_square();
         self.sink().finish_node(); // LIST
         self.sink().finish_node(); // SOUP
         self.sink().finish_node(); // ARG_TUPLE
@@ -791,6 +797,17 @@ impl<'text> Parser<'text> {
         }
     }
 
+    /// Expect the bracket that closes a list, which is missing at the end of
+    /// the text too.
+    fn expect_close_square(&mut self) -> bool {
+        if self.peek().is_none() {
+            self.errors.push(ParseError::UnclosedBracketExpr {
+                range: self.next_range(),
+            });
+        }
+        self.expect(CLOSE_SQUARE)
+    }
+
     /// Consume tokens, wrapping them in `ERROR_STOWAWAYS`, until the given
     /// closing delimiter is found (consuming it) or a higher-level boundary
     /// (`stop_at`) is encountered (pushing it back).
@@ -959,7 +976,9 @@ impl<'text> Parser<'text> {
                     self.sink().token(OPEN_BRACE, tok_len);
 
                     // Parse interpolation content
+                    self.add_trivia();
                     self.parse_string_interpolation_content();
+                    self.add_trivia();
 
                     // Consume closing brace
                     if let Some((CLOSE_BRACE, close_text)) = self.peek() {
@@ -1012,6 +1031,7 @@ impl<'text> Parser<'text> {
                 _ => {
                     // Unexpected token - consume and continue
                     self.next();
+                    self.sink().token(kind, tok_len);
                 }
             }
         }
@@ -1040,6 +1060,7 @@ impl<'text> Parser<'text> {
                 self.sink().start_node(NAME);
                 self.sink().token(STRING_INTERPOLATION_TARGET, len);
                 self.sink().finish_node(); // end NAME
+                self.add_trivia();
             }
 
             // Parse alternating dots and targets
@@ -1051,6 +1072,7 @@ impl<'text> Parser<'text> {
                     self.sink().start_node(NAME);
                     self.sink().token(OPERATOR_IDENTIFIER, dot_len);
                     self.sink().finish_node(); // end NAME
+                    self.add_trivia();
 
                     // Parse the following target
                     if let Some((STRING_INTERPOLATION_TARGET, tgt_text)) = self.peek() {
@@ -1059,6 +1081,7 @@ impl<'text> Parser<'text> {
                         self.sink().start_node(NAME);
                         self.sink().token(STRING_INTERPOLATION_TARGET, tgt_len);
                         self.sink().finish_node(); // end NAME
+                        self.add_trivia();
                     } else {
                         // Malformed - dot without following target
                         break;
@@ -1080,11 +1103,14 @@ impl<'text> Parser<'text> {
             }
         }
 
+        self.add_trivia();
+
         // Check for format spec (colon followed by format)
         if let Some((COLON, colon_text)) = self.peek() {
             let colon_len = TextSize::of(colon_text);
             self.next(); // consume :
             self.sink().token(COLON, colon_len);
+            self.add_trivia();
 
             if let Some((STRING_FORMAT_SPEC, spec_text)) = self.peek() {
                 let spec_len = TextSize::of(spec_text);
@@ -1230,6 +1256,10 @@ impl EventSink for BlockEventSink {
                                 self.commit_meta();
                             }
                         }
+                    } else if self.declaration.is_some() {
+                        // the pending declaration has an empty body
+                        self.commit_declaration();
+                        self.decl_start_offset = None;
                     }
                     self.declaration = Some(PendingDeclaration {
                         meta: Some(vec![]), // expect meta
@@ -1266,6 +1296,17 @@ impl EventSink for BlockEventSink {
                         }
                     }
 
+                    // A pending declaration which has its colon and no body
+                    // (`a: b: c`) is complete: the head belongs to a new one
+                    if self
+                        .declaration
+                        .as_ref()
+                        .is_some_and(|d| !d.colon.is_empty())
+                    {
+                        self.commit_declaration();
+                        self.decl_start_offset = None;
+                    }
+
                     // If we have empty head but we have a declaration with metadata,
                     // try to backtrack and extract the last expression from metadata as head
                     if head_nodes.is_empty() {
diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 4899cd1..f2ecb44 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -129,9 +129,17 @@ impl<'text> Iterator for StringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia, in literals content
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
+            }
         }
 
         let (start, ch) = self.bump()?;
@@ -324,9 +332,17 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia, in literals content
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let end = self.position;
+                return Some((
+                    WHITESPACE,
+                    self.make_span(start, end),
+                    self.slice(start, end),
+                ));
+            }
         }
 
         let (start, ch) = self.bump()?;
-- 
2.43.0


From 2dd5282861e60444572a8f11e1299bc6e958e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 34/61] fix: a lone or escaped quote at the end of a text is an
 unterminated literal, not a crash

---
 src/syntax/rowan/validate.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/syntax/rowan/validate.rs b/src/syntax/rowan/validate.rs
index 3b5c18c..64e7a08 100644
--- a/src/syntax/rowan/validate.rs
+++ b/src/syntax/rowan/validate.rs
@@ -62,6 +62,24 @@ mod support {
         }
     }
 
+    /// Whether a quoted token opens with `open` and lacks its closing quote
+    ///
+    /// The opening quote alone (`'` at the end of a text) is not closed, nor
+    /// is a c-string whose last quote is escaped.
+    pub fn unclosed(text: &str, open: &str) -> bool {
+        let Some(content) = text.strip_prefix(open) else {
+            return false;
+        };
+        let quote = if open.ends_with('\'') { '\'' } else { '"' };
+        match content.strip_suffix(quote) {
+            None => true,
+            Some(inner) if open.starts_with('c') => {
+                inner.chars().rev().take_while(|c| *c == '\\').count() % 2 == 1
+            }
+            Some(_) => false,
+        }
+    }
+
     pub fn non_empty(node: &SyntaxNode, errors: &mut Vec<ParseError>) {
         for child in node.children() {
             if !child.kind().is_trivial() {
@@ -77,7 +95,7 @@ mod support {
 impl Validatable for Sym {
     /// If a symbol is quoted, it must be quoted correctly
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if support::unclosed(self.text(), ":'") {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -88,7 +106,7 @@ impl Validatable for Sym {
 impl Validatable for Str {
     /// String quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('"') && !self.text().ends_with('"') {
+        if support::unclosed(self.text(), "\"") {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -99,7 +117,7 @@ impl Validatable for Str {
 impl Validatable for CStr {
     /// C-string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("c\"") && !self.text().ends_with('"') {
+        if support::unclosed(self.text(), "c\"") {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -110,7 +128,7 @@ impl Validatable for CStr {
 impl Validatable for RawStr {
     /// Raw string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("r\"") && !self.text().ends_with('"') {
+        if support::unclosed(self.text(), "r\"") {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -121,7 +139,7 @@ impl Validatable for RawStr {
 impl Validatable for TStr {
     /// ZDT literal must contain a valid timestamp
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("t\"") && !self.text().ends_with('"') {
+        if support::unclosed(self.text(), "t\"") {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -142,7 +160,7 @@ impl Validatable for TStr {
 impl Validatable for SStr {
     /// Type-data literal — only validate that it is properly closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("s\"") && !self.text().ends_with('"') {
+        if support::unclosed(self.text(), "s\"") {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -184,7 +202,7 @@ impl Validatable for OperatorIdentifier {}
 
 impl Validatable for SingleQuoteIdentifier {
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if support::unclosed(self.text(), "'") {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
-- 
2.43.0


From e724b9ad44c937080671fb41b0172616488feae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 35/61] fix: reformatting keeps comments, block metadata and
 tokens, and settles in one pass

---
 src/syntax/export/format.rs | 310 ++++++++++++++++++++++--------------
 1 file changed, 189 insertions(+), 121 deletions(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index df9d58c..482ec4e 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -14,6 +14,7 @@
 
 use crate::syntax::rowan::ast::{self as rowan_ast, AstToken, HasSoup};
 use crate::syntax::rowan::kind::{SyntaxKind, SyntaxNode, SyntaxToken};
+use crate::syntax::rowan::lex::Lexer;
 use pretty::RcDoc;
 use rowan::ast::AstNode;
 
@@ -127,106 +128,164 @@ impl Formatter {
     // Full Reformatting Mode
     // ========================================================================
 
-    /// Extract leading comments (including shebang) from a syntax node
-    fn extract_leading_comments(&self, node: &SyntaxNode) -> Vec<String> {
-        let mut comments = Vec::new();
-        for child in node.children_with_tokens() {
-            match child {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        comments.push(t.text().to_string());
-                    } else if t.kind() != SyntaxKind::WHITESPACE {
-                        // Stop at first non-trivia token
-                        break;
-                    }
-                }
-                rowan::NodeOrToken::Node(_) => {
-                    // Stop at first node (declarations, metadata, etc.)
-                    break;
-                }
-            }
+    /// Reformat a unit: metadata, declarations and the comments among them
+    ///
+    /// Leading comments (including a shebang) form a header, and a blank line
+    /// follows the header, the metadata and every declaration. A comment which
+    /// ends a declaration's line stays on that line; other comments keep their
+    /// own line and a blank line after them when they had one.
+    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
+        #[derive(PartialEq, Clone, Copy)]
+        enum Last {
+            Nothing,
+            Comment,
+            Item,
         }
-        comments
-    }
 
-    /// Extract comments that precede a declaration
-    fn extract_declaration_leading_comments(&self, decl: &rowan_ast::Declaration) -> Vec<String> {
-        let mut found_comments = Vec::new();
-        // Look at the previous siblings to find comments
-        let mut prev = decl.syntax().prev_sibling_or_token();
+        let mut result = RcDoc::nil();
+        let mut last = Last::Nothing;
+        let mut seen_item = false;
+        let mut newlines = 0;
+
+        // Trivia which follows the metadata is held inside its node
+        let mut children = vec![];
+        for child in unit.syntax().children_with_tokens() {
+            let trailing = match &child {
+                rowan::NodeOrToken::Node(n) if rowan_ast::BlockMetadata::can_cast(n.kind()) => {
+                    Self::split_trailing_trivia(n).1
+                }
+                _ => vec![],
+            };
+            children.push(child);
+            children.extend(trailing.into_iter().map(rowan::NodeOrToken::Token));
+        }
 
-        while let Some(sibling) = prev {
-            match &sibling {
+        for child in children {
+            let (doc, is_comment) = match &child {
+                rowan::NodeOrToken::Token(t) if t.kind() == SyntaxKind::COMMENT => {
+                    let text = t.text().trim_end_matches(['\n', '\r']);
+                    let ends_line = newlines == 0 && last == Last::Item;
+                    if ends_line {
+                        result = result.append(RcDoc::text(format!(" {text}")));
+                        newlines = t.text().matches('\n').count();
+                        continue;
+                    }
+                    (RcDoc::text(text.to_string()), true)
+                }
                 rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        found_comments.push(t.text().to_string());
-                    } else if t.kind() == SyntaxKind::WHITESPACE {
-                        // Check if whitespace contains blank line (resets comment association)
-                        if t.text().chars().filter(|&c| c == '\n').count() > 1 {
-                            break;
-                        }
+                    newlines += t.text().matches('\n').count();
+                    continue;
+                }
+                rowan::NodeOrToken::Node(n) => {
+                    let doc = if let Some(meta) = rowan_ast::BlockMetadata::cast(n.clone()) {
+                        self.reformat_block_metadata(&meta)
+                    } else if let Some(decl) = rowan_ast::Declaration::cast(n.clone()) {
+                        self.reformat_declaration(&decl)
                     } else {
-                        break;
-                    }
+                        self.verbatim(n)
+                    };
+                    (doc, false)
                 }
-                rowan::NodeOrToken::Node(_) => break,
+            };
+
+            let blank = match last {
+                Last::Nothing => false,
+                Last::Item => true,
+                Last::Comment => newlines > 1 || (!is_comment && !seen_item),
+            };
+            if last != Last::Nothing {
+                result = result.append(RcDoc::hardline());
+            }
+            if blank {
+                result = result.append(RcDoc::hardline());
             }
-            prev = sibling.prev_sibling_or_token();
+            result = result.append(doc);
+            seen_item |= !is_comment;
+            last = if is_comment {
+                Last::Comment
+            } else {
+                Last::Item
+            };
+            newlines = match &child {
+                rowan::NodeOrToken::Token(t) => t.text().matches('\n').count(),
+                rowan::NodeOrToken::Node(_) => 0,
+            };
         }
 
-        // Reverse since we collected in reverse order
-        found_comments.reverse();
-        found_comments
+        result
     }
 
-    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
-        let mut result = RcDoc::nil();
-
-        // Preserve leading comments (including shebang) as a single header block
-        let leading_comments = self.extract_leading_comments(unit.syntax());
-        if !leading_comments.is_empty() {
-            for comment in &leading_comments {
-                result = result
-                    .append(RcDoc::text(comment.clone()))
-                    .append(RcDoc::hardline());
-            }
-            // Add blank line after leading comments section
-            result = result.append(RcDoc::hardline());
+    /// The source text of a node with only whitespace violations fixed
+    fn verbatim(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        let mut text = String::new();
+        let mut line_col = 0;
+        for token in &Self::split_trailing_trivia(node).0 {
+            self.process_token_conservative(token, &mut text, &mut line_col);
         }
+        RcDoc::text(text)
+    }
 
-        // Handle metadata if present
-        if let Some(meta) = unit.meta() {
-            result = result.append(self.reformat_block_metadata(&meta));
-            result = result.append(RcDoc::hardline()).append(RcDoc::hardline());
-        }
+    /// The tokens of a node, with the trivia at its end apart
+    fn split_trailing_trivia(node: &SyntaxNode) -> (Vec<SyntaxToken>, Vec<SyntaxToken>) {
+        let mut tokens: Vec<_> = node
+            .descendants_with_tokens()
+            .filter_map(|e| e.into_token())
+            .collect();
+        let end = tokens
+            .iter()
+            .rposition(|t| !t.kind().is_trivial())
+            .map_or(0, |i| i + 1);
+        let trailing = tokens.split_off(end);
+        (tokens, trailing)
+    }
 
-        // Format each declaration with its leading comments
-        let declarations: Vec<_> = unit.declarations().collect();
-        for (i, decl) in declarations.iter().enumerate() {
-            if i > 0 {
-                // Blank line between declarations
-                result = result.append(RcDoc::hardline());
+    /// Whether there is a comment anywhere inside a node (before its end)
+    fn has_comment(node: &SyntaxNode) -> bool {
+        Self::split_trailing_trivia(node)
+            .0
+            .iter()
+            .any(|t| t.kind() == SyntaxKind::COMMENT)
+    }
 
-                // Extract and add comments that precede this declaration (not the first one,
-                // as those are already handled by extract_leading_comments)
-                let decl_comments = self.extract_declaration_leading_comments(decl);
-                for comment in &decl_comments {
-                    result = result
-                        .append(RcDoc::text(comment.clone()))
-                        .append(RcDoc::hardline());
-                }
-            }
+    /// Nothing, or a space where the tokens either side would run together
+    fn tight_gap(left: &SyntaxToken, right: &SyntaxToken) -> RcDoc<'static, ()> {
+        if Self::tokens_join(left, right) {
+            RcDoc::nil()
+        } else {
+            RcDoc::space()
+        }
+    }
 
-            result = result.append(self.reformat_declaration(decl));
-            if i < declarations.len() - 1 {
-                result = result.append(RcDoc::hardline());
-            }
+    /// Length of a document if it were rendered here, `None` if it does not
+    /// fit on one line
+    fn flat_len(&self, doc: &RcDoc<'static, ()>) -> Option<usize> {
+        let text = self.render_doc(doc.clone()).ok()?;
+        (!text.contains('\n')).then(|| text.chars().count())
+    }
+
+    /// Whether the tokens either side of a gap remain the same tokens when
+    /// there is no whitespace in the gap
+    fn can_join(left: &SyntaxNode, right: &SyntaxNode) -> bool {
+        match (left.last_token(), right.first_token()) {
+            (Some(l), Some(r)) => Self::tokens_join(&l, &r),
+            _ => false,
         }
+    }
 
-        result
+    fn tokens_join(l: &SyntaxToken, r: &SyntaxToken) -> bool {
+        let text = format!("{}{}", l.text(), r.text());
+        let tokens: Vec<_> = Lexer::from_text(&text)
+            .map(|(k, span)| (k, span.end().to_usize()))
+            .collect();
+        tokens == [(l.kind(), l.text().len()), (r.kind(), text.len())]
     }
 
     fn reformat_declaration(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
+        // There is no canonical place for comments within a declaration
+        if Self::has_comment(decl.syntax()) {
+            return self.verbatim(decl.syntax());
+        }
+
         let mut doc = RcDoc::nil();
 
         // Handle metadata
@@ -272,6 +331,7 @@ impl Formatter {
                 // Format: (op operand) - no space between operator and operand
                 RcDoc::text("(")
                     .append(RcDoc::text(op.syntax().text().to_string()))
+                    .append(Self::tight_gap(op.syntax(), operand.syntax()))
                     .append(RcDoc::text(operand.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
@@ -279,6 +339,7 @@ impl Formatter {
                 // Format: (operand op) - no space between operand and operator
                 RcDoc::text("(")
                     .append(RcDoc::text(operand.syntax().text().to_string()))
+                    .append(Self::tight_gap(operand.syntax(), op.syntax()))
                     .append(RcDoc::text(op.syntax().text().to_string()))
                     .append(RcDoc::text(")"))
             }
@@ -348,11 +409,11 @@ impl Formatter {
                 // - This or previous element is a dot operator
                 // - Previous element is a prefix operator (tight binding)
                 // - This element is a postfix operator (tight binding)
+                //
+                // A space which keeps two tokens apart is always needed.
+                let tight = is_dot_op || prev_was_dot || prev_is_prefix_op || is_postfix_op;
                 let need_space = !is_apply_tuple
-                    && !is_dot_op
-                    && !prev_was_dot
-                    && !prev_is_prefix_op
-                    && !is_postfix_op;
+                    && !(tight && Self::can_join(elements[i - 1].syntax(), elem.syntax()));
 
                 if need_space {
                     docs.push(RcDoc::space());
@@ -443,33 +504,41 @@ impl Formatter {
 
     fn reformat_block(&self, block: &rowan_ast::Block) -> RcDoc<'static, ()> {
         let decls: Vec<_> = block.declarations().collect();
+        let meta = block.meta().map(|m| self.reformat_block_metadata(&m));
 
         if decls.is_empty() {
-            return RcDoc::text("{ }");
+            return match meta {
+                Some(m) => RcDoc::text("{ ").append(m).append(RcDoc::text(" }")),
+                None => RcDoc::text("{ }"),
+            };
         }
 
+        // Single line: { a: 1, b: 2 }
+        let mut single = RcDoc::text("{ ");
+        if let Some(m) = &meta {
+            single = single.append(m.clone()).append(RcDoc::space());
+        }
+        for (i, decl) in decls.iter().enumerate() {
+            if i > 0 {
+                single = single.append(RcDoc::text(", "));
+            }
+            single = single.append(self.reformat_declaration_inline(decl));
+        }
+        single = single.append(RcDoc::text(" }"));
+
         // Check if block can be single line (short enough, no nested blocks)
-        let single_line_len = self.estimate_block_single_line_len(block);
-        let can_single_line = single_line_len
-            <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN)
-            && decls.len() <= MAX_SINGLE_LINE_DECLS
-            && !self.has_nested_block(block);
+        let can_single_line = decls.len() <= MAX_SINGLE_LINE_DECLS
+            && !self.has_nested_block(block)
+            && self.flat_len(&single).is_some_and(|len| {
+                len <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN)
+            });
 
         if can_single_line {
-            // Single line: { a: 1, b: 2 }
-            let mut docs = vec![RcDoc::text("{ ")];
-            for (i, decl) in decls.iter().enumerate() {
-                if i > 0 {
-                    docs.push(RcDoc::text(", "));
-                }
-                docs.push(self.reformat_declaration_inline(decl));
-            }
-            docs.push(RcDoc::text(" }"));
-            RcDoc::concat(docs)
+            single
         } else {
             // Multi-line block
             let indent = self.config.indent_size;
-            let mut inner_docs = Vec::new();
+            let mut inner_docs: Vec<_> = meta.into_iter().collect();
 
             for decl in &decls {
                 inner_docs.push(self.reformat_declaration(decl));
@@ -488,6 +557,12 @@ impl Formatter {
     fn reformat_declaration_inline(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
         let mut doc = RcDoc::nil();
 
+        if let Some(meta) = decl.meta() {
+            doc = doc
+                .append(self.reformat_decl_metadata(&meta))
+                .append(RcDoc::space());
+        }
+
         if let Some(head) = decl.head() {
             doc = doc.append(self.reformat_decl_head(&head));
         }
@@ -524,18 +599,17 @@ impl Formatter {
                 .append(RcDoc::text("]"));
         }
 
-        // Estimate single-line length
-        let single_line_len: usize = items
-            .iter()
-            .map(|s| usize::from(s.syntax().text().len()) + 2)
-            .sum();
+        // Single line: [a, b, c]
+        let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
+        let single = RcDoc::text("[")
+            .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
+            .append(RcDoc::text("]"));
 
-        if single_line_len <= self.config.line_width.saturating_sub(10) {
-            // Single line: [a, b, c]
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
-            RcDoc::text("[")
-                .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
-                .append(RcDoc::text("]"))
+        if self
+            .flat_len(&single)
+            .is_some_and(|len| len <= self.config.line_width.saturating_sub(10))
+        {
+            single
         } else {
             // Multi-line - same pattern as blocks for consistent indentation
             let indent = self.config.indent_size;
@@ -585,8 +659,10 @@ impl Formatter {
     }
 
     fn reformat_block_metadata(&self, meta: &rowan_ast::BlockMetadata) -> RcDoc<'static, ()> {
-        if let Some(soup) = meta.soup() {
-            RcDoc::text("` ").append(self.reformat_soup(&soup))
+        if Self::has_comment(meta.syntax()) {
+            self.verbatim(meta.syntax())
+        } else if let Some(soup) = meta.soup() {
+            self.reformat_soup(&soup)
         } else {
             RcDoc::nil()
         }
@@ -736,14 +812,6 @@ impl Formatter {
     // Helper Methods
     // ========================================================================
 
-    fn estimate_block_single_line_len(&self, block: &rowan_ast::Block) -> usize {
-        let mut len = 4; // "{ " and " }"
-        for decl in block.declarations() {
-            len += usize::from(decl.syntax().text().len()) + 2; // ", " separator
-        }
-        len
-    }
-
     fn has_nested_block(&self, block: &rowan_ast::Block) -> bool {
         for decl in block.declarations() {
             if let Some(body) = decl.body() {
-- 
2.43.0


From 4dc1a8db57c5a2f12a742879b3e0c2a5eb284a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 36/61] fix: reformatting keeps a list pattern that lacks its
 tail

---
 src/syntax/export/format.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index 482ec4e..5ad45fd 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -588,14 +588,22 @@ impl Formatter {
         // Preserve cons patterns: `[x : xs]` or `[a, b : rest]`.
         // These have different semantics from fixed-length lists and must NOT be
         // reformatted as `[x, xs]`.
-        if list.is_cons_pattern() && items.len() >= 2 {
-            let (heads, tail_slice) = items.split_at(items.len() - 1);
-            let tail = &tail_slice[0];
+        let colon = list
+            .syntax()
+            .children_with_tokens()
+            .find(|c| c.kind() == SyntaxKind::COLON);
+        if let Some(colon) = colon {
+            let (heads, tail): (Vec<_>, Vec<_>) = items
+                .iter()
+                .partition(|s| s.syntax().text_range().end() <= colon.text_range().start());
             let head_docs: Vec<_> = heads.iter().map(|s| self.reformat_soup(s)).collect();
+            let tail_docs = tail
+                .iter()
+                .map(|s| RcDoc::space().append(self.reformat_soup(s)));
             return RcDoc::text("[")
                 .append(RcDoc::intersperse(head_docs, RcDoc::text(", ")))
-                .append(RcDoc::text(" : "))
-                .append(self.reformat_soup(tail))
+                .append(RcDoc::text(" :"))
+                .append(RcDoc::concat(tail_docs))
                 .append(RcDoc::text("]"));
         }
 
-- 
2.43.0


From 06b2f100f376dc54cd9e0b4e1a6b6c98175d32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 37/61] fix: a closing brace always ends an interpolation

---
 src/syntax/rowan/string_lex.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index f2ecb44..72f4972 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -158,15 +158,11 @@ impl<'text> Iterator for StringPatternLexer<'text> {
             }
             '}' => {
                 if self.in_interpolation {
-                    // Check for escaped }}
-                    if let Some(&'}') = self.peek() {
-                        Some(self.escaped_close(start))
-                    } else {
-                        // End interpolation
-                        self.in_interpolation = false;
-                        self.in_format_spec = false;
-                        Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
-                    }
+                    // End interpolation, whatever follows: no brace can be
+                    // escaped inside one
+                    self.in_interpolation = false;
+                    self.in_format_spec = false;
+                    Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
                 } else {
                     // Outside interpolation, check for escaped }}
                     if let Some(&'}') = self.peek() {
-- 
2.43.0


From 2727cf18746693d1a021b75925e85cba84a98ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 38/61] fix: XML import reports truncated documents and keeps
 CDATA

---
 src/import/xml.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index 5452c08..73c7aa9 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -78,11 +78,13 @@ impl<'src> XmlImporter<'src> {
         let mut buf = Vec::new();
         let mut stack: VecDeque<ProtoElement> = VecDeque::new();
         let mut text_buf = String::new();
+        let mut root: Option<RcExpr> = None;
 
         loop {
             match self.reader.read_event_into(&mut buf) {
                 Ok(Event::Start(ref event)) => {
                     self.flush_text(&mut text_buf, &mut stack)?;
+                    self.check_single_root(&root)?;
                     stack.push_back(self.to_proto_element(event)?);
                 }
                 Ok(Event::End(_)) => {
@@ -92,17 +94,18 @@ impl<'src> XmlImporter<'src> {
                         if let Some(top) = stack.back_mut() {
                             top.add(n);
                         } else {
-                            return Ok(n);
+                            root = Some(n);
                         }
                     }
                 }
                 Ok(Event::Empty(ref event)) => {
                     self.flush_text(&mut text_buf, &mut stack)?;
+                    self.check_single_root(&root)?;
                     let n = self.to_proto_element(event)?.complete();
                     if let Some(top) = stack.back_mut() {
                         top.add(n);
                     } else {
-                        return Ok(n);
+                        root = Some(n);
                     }
                 }
                 Ok(Event::Text(event)) => {
@@ -138,6 +141,28 @@ impl<'src> XmlImporter<'src> {
                         }
                     }
                 }
+                Ok(Event::CData(event)) => {
+                    // Verbatim text: no references to resolve.
+                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
+                    text_buf.push_str(&decoded);
+                }
+                Ok(Event::Eof) => {
+                    self.flush_text(&mut text_buf, &mut stack)?;
+                    if !stack.is_empty() {
+                        return Err(SourceError::InvalidXml(
+                            "unexpected end of document in an open element".to_string(),
+                            self.file_id,
+                            self.span(),
+                        ));
+                    }
+                    return root.ok_or_else(|| {
+                        SourceError::InvalidXml(
+                            "No top-level element".to_string(),
+                            self.file_id,
+                            self.span(),
+                        )
+                    });
+                }
                 Err(e) => return Err(self.to_source_error(e)),
                 _ => (),
             }
@@ -174,6 +199,18 @@ impl<'src> XmlImporter<'src> {
         Ok(())
     }
 
+    /// A document has a single top-level element: refuse to start another
+    fn check_single_root(&self, root: &Option<RcExpr>) -> Result<(), SourceError> {
+        match root {
+            None => Ok(()),
+            Some(_) => Err(SourceError::InvalidXml(
+                "more than one top-level element".to_string(),
+                self.file_id,
+                self.span(),
+            )),
+        }
+    }
+
     /// A span indicating current reader position
     fn span(&self) -> Span {
         let pos = ByteIndex(
-- 
2.43.0


From b466c4304c6b24b03889ed84d1953e9a12d9a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 39/61] fix: EDN import keeps namespaces, top-level forms,
 instants and big integers

---
 src/import/edn.rs | 48 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/import/edn.rs b/src/import/edn.rs
index 016f85e..df1f390 100644
--- a/src/import/edn.rs
+++ b/src/import/edn.rs
@@ -4,11 +4,11 @@ use std::iter;
 
 use super::error::SourceError;
 use crate::{
-    common::sourcemap::SourceMap,
+    common::{number::from_integer, sourcemap::SourceMap},
     core::expr::{acore, RcExpr},
 };
 use codespan::Span;
-use edn_format::{parse_str, Value};
+use edn_format::{parse_str, Parser, ParserOptions, Value};
 use serde_json::Number;
 
 /// Read EDN format data
@@ -26,15 +26,35 @@ pub fn read_edn<'smap>(
     data_only: bool,
 ) -> Result<RcExpr, SourceError> {
     let edn = parse_str(text).map_err(|e| SourceError::InvalidEdn(Box::new(e), file_id))?;
+    // Where there are several top-level items, read on and return them all
+    let rest = Parser::from_str(text, ParserOptions::default())
+        .skip(1)
+        .collect::<Result<Vec<Value>, _>>()
+        .map_err(|e| SourceError::InvalidSource(format!("invalid EDN: {e:?}"), file_id))?;
+    if !rest.is_empty() {
+        return iter::once(&edn)
+            .chain(rest.iter())
+            .map(|v| value_to_core(v, file_id, data_only))
+            .collect::<Result<Vec<RcExpr>, SourceError>>()
+            .map(acore::list);
+    }
     value_to_core(&edn, file_id, data_only)
 }
 
+/// The full name of a symbol or keyword, namespace included
+fn full_name(namespace: Option<&str>, name: &str) -> String {
+    match namespace {
+        Some(ns) => format!("{ns}/{name}"),
+        None => name.to_string(),
+    }
+}
+
 fn value_to_key(edn: &Value, file_id: usize) -> Result<String, SourceError> {
     match edn {
         Value::Character(c) => Ok(c.to_string()),
         Value::String(s) => Ok(s.to_string()),
-        Value::Symbol(sym) => Ok(sym.name().to_string()),
-        Value::Keyword(kw) => Ok(kw.name().to_string()),
+        Value::Symbol(sym) => Ok(full_name(sym.namespace(), sym.name())),
+        Value::Keyword(kw) => Ok(full_name(kw.namespace(), kw.name())),
         v => Err(SourceError::InvalidBlockKey(
             v.to_string(),
             file_id,
@@ -49,8 +69,8 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
         Value::Boolean(b) => Ok(acore::bool_(*b)),
         Value::Character(c) => Ok(acore::str(c.to_string())),
         Value::String(s) => Ok(acore::str(s)),
-        Value::Symbol(sym) => Ok(acore::sym(sym.name())),
-        Value::Keyword(kw) => Ok(acore::sym(kw.name())),
+        Value::Symbol(sym) => Ok(acore::sym(full_name(sym.namespace(), sym.name()))),
+        Value::Keyword(kw) => Ok(acore::sym(full_name(kw.namespace(), kw.name()))),
         Value::Integer(i) => Ok(acore::num(*i)),
         Value::Float(f) => match Number::from_f64(f.into_inner()) {
             Some(n) => Ok(acore::num(n)),
@@ -60,11 +80,13 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
                 Span::default(),
             )),
         },
-        Value::BigInt(i) => Err(SourceError::InvalidNumber(
-            i.to_string(),
-            file_id,
-            Span::default(),
-        )),
+        Value::BigInt(i) => i
+            .to_string()
+            .parse::<i128>()
+            .ok()
+            .and_then(from_integer)
+            .map(acore::num)
+            .ok_or_else(|| SourceError::InvalidNumber(i.to_string(), file_id, Span::default())),
         Value::BigDec(d) => Err(SourceError::InvalidNumber(
             d.to_string(),
             file_id,
@@ -101,11 +123,11 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
             .map(acore::list),
         Value::Inst(dt) => {
             if data_only {
-                Ok(acore::str(dt.to_string()))
+                Ok(acore::str(dt.to_rfc3339()))
             } else {
                 Ok(acore::app(
                     acore::bif("ZDT.PARSE"),
-                    vec![acore::str(dt.to_string())],
+                    vec![acore::str(dt.to_rfc3339())],
                 ))
             }
         }
-- 
2.43.0


From 76026904d6007996da721f893ccb50cf5a9ad5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 40/61] fix: YAML import reads core-schema scalars and only
 merges a plain << key

---
 src/import/yaml.rs | 79 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 9 deletions(-)

diff --git a/src/import/yaml.rs b/src/import/yaml.rs
index 3bc5045..7e36797 100644
--- a/src/import/yaml.rs
+++ b/src/import/yaml.rs
@@ -151,7 +151,7 @@ impl<'smap> Receiver<'smap> {
         if let Some(expectation) = self.stack.pop() {
             // Check for merge key handling
             let new_expectation = match expectation {
-                Expectation::OddBlockAccumulation(off, entries, key, anchor_id) if key == "<<" => {
+                Expectation::MergeAccumulation(off, entries, anchor_id) => {
                     match self.handle_merge(expr, off, entries, anchor_id) {
                         Ok(new_exp) => new_exp,
                         Err(err) => {
@@ -272,9 +272,17 @@ impl<'smap> Receiver<'smap> {
 
         match tag {
             Tag::Null => Ok(core::null(smid)),
-            Tag::Bool => Ok(core::bool_(smid, parse_bool(&text))),
+            Tag::Bool => parse_bool(&text)
+                .map(|b| core::bool_(smid, b))
+                .ok_or_else(|| {
+                    SourceError::InvalidYaml(
+                        format!("'{text}' is not a boolean"),
+                        self.file_id,
+                        span,
+                    )
+                }),
             Tag::Str => Ok(core::str(smid, text)),
-            Tag::Int | Tag::Float => crate::common::number::parse_number(&text)
+            Tag::Int | Tag::Float => parse_yaml_number(&text)
                 .ok_or(SourceError::InvalidNumber(text, self.file_id, span))
                 .map(|n| core::num(smid, n)),
             Tag::Timestamp => {
@@ -317,10 +325,14 @@ impl<'smap> Receiver<'smap> {
         &mut self,
         byte_index: ByteIndex,
         text: String,
+        style: TScalarStyle,
     ) -> Result<RcExpr, SourceError> {
         let span = Span::new(byte_index, byte_index);
         let smid = self.new_smid(span);
-        Ok(core::sym(smid, text))
+        Ok(match style {
+            TScalarStyle::Plain => core::sym(smid, text),
+            _ => core::str(smid, text),
+        })
     }
 
     /// Parse eucalypt expression embedded in YAML source
@@ -395,6 +407,8 @@ pub enum Expectation {
     EvenBlockAccumulation(ByteIndex, Vec<(String, RcExpr)>, Option<usize>),
     /// Block accumulation (odd state = waiting for value): (start_index, entries, key, optional_anchor_id)
     OddBlockAccumulation(ByteIndex, Vec<(String, RcExpr)>, String, Option<usize>),
+    /// Block accumulation after a merge key: (start_index, entries, optional_anchor_id)
+    MergeAccumulation(ByteIndex, Vec<(String, RcExpr)>, Option<usize>),
 }
 
 impl Expectation {
@@ -416,6 +430,10 @@ impl Expectation {
                 let key = if let Expr::Literal(_, prim) = &*expr.inner {
                     match prim {
                         Primitive::Str(s) => s.clone(),
+                        // Only a plain key is a merge key; a quoted one is text
+                        Primitive::Sym(s) if s == "<<" => {
+                            return Ok(Expectation::MergeAccumulation(off, entries, anchor_id))
+                        }
                         Primitive::Sym(s) => s.clone(),
                         _ => {
                             return Err(SourceError::InvalidBlockKey(
@@ -483,7 +501,7 @@ impl MarkedEventReceiver for Receiver<'_> {
                     self.stack.last(),
                     Some(Expectation::EvenBlockAccumulation(..))
                 ) {
-                    match self.convert_key_scalar(byte_index(marker), text) {
+                    match self.convert_key_scalar(byte_index(marker), text, style) {
                         Ok(key) => self.feed(key),
                         Err(err) => {
                             self.error = Some(err);
@@ -578,13 +596,13 @@ lazy_static! {
         r"^$",
         r"^[tT]rue$",
         r"^[fF]alse$",
-        r"^TRUE|FALSE$",
+        r"^(TRUE|FALSE)$",
         r"^[-+]?[0-9]+$",
         r"^0o[0-7]+$",
         r"^0x[0-9a-fA-F]+$",
         r"^[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?$",
         r"^[-+]?(\.inf|\.Inf|\.INF)$",
-        r"^\.nan|\.NaN|\.NAN$",
+        r"^(\.nan|\.NaN|\.NAN)$",
     ])
     .expect("YAML scalar patterns should compile");
 
@@ -717,8 +735,51 @@ fn parse_timestamp(text: &str) -> Option<DateTime<FixedOffset>> {
     None
 }
 
-fn parse_bool(text: &str) -> bool {
-    matches!(text, "TRUE" | "True" | "true")
+fn parse_bool(text: &str) -> Option<bool> {
+    match text {
+        "TRUE" | "True" | "true" => Some(true),
+        "FALSE" | "False" | "false" => Some(false),
+        _ => None,
+    }
+}
+
+/// Read a number in any of the spellings of the YAML core schema
+///
+/// Infinities and NaN are numbers eucalypt does not have.
+fn parse_yaml_number(text: &str) -> Option<serde_json::Number> {
+    let radix_digits = [("0o", 8), ("0x", 16)]
+        .iter()
+        .find_map(|(prefix, radix)| text.strip_prefix(prefix).map(|digits| (digits, *radix)));
+    if let Some((digits, radix)) = radix_digits {
+        return u64::from_str_radix(digits, radix).ok().map(Into::into);
+    }
+
+    // Reduce to the spelling of JSON: no '+', no leading zeros, and digits
+    // either side of the point
+    let (sign, unsigned) = match text.strip_prefix('-') {
+        Some(rest) => ("-", rest),
+        None => ("", text.strip_prefix('+').unwrap_or(text)),
+    };
+    let mantissa_len = unsigned.find(['e', 'E']).unwrap_or(unsigned.len());
+    let (mantissa, exponent) = unsigned.split_at(mantissa_len);
+    let (whole, fraction) = match mantissa.split_once('.') {
+        Some((whole, fraction)) => (whole, Some(fraction)),
+        None => (mantissa, None),
+    };
+    if whole.is_empty() && fraction.is_none_or(str::is_empty) {
+        return None;
+    }
+    let mut canonical = sign.to_string();
+    match whole.trim_start_matches('0') {
+        "" => canonical.push('0'),
+        digits => canonical.push_str(digits),
+    }
+    if let Some(fraction) = fraction {
+        canonical.push('.');
+        canonical.push_str(if fraction.is_empty() { "0" } else { fraction });
+    }
+    canonical.push_str(exponent);
+    crate::common::number::parse_number(&canonical)
 }
 
 #[cfg(test)]
-- 
2.43.0


From faff64739b0d9179862ae27cd0afa73aca1f72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 41/61] fix: eu output quotes names and escapes text so that it
 reads back

---
 src/export/eu.rs | 88 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 81 insertions(+), 7 deletions(-)

diff --git a/src/export/eu.rs b/src/export/eu.rs
index c0d2bca..49dc5a3 100644
--- a/src/export/eu.rs
+++ b/src/export/eu.rs
@@ -7,6 +7,7 @@
 
 use crate::eval::emit::{Emitter, Event, Rejection, RenderMetadata};
 use crate::eval::primitive::Primitive;
+use crate::syntax::rowan::lex::{is_normal_continuation, is_normal_start};
 use pretty::RcDoc;
 use std::io::Write;
 
@@ -67,19 +68,84 @@ impl FromPairs<String, EuValue> for EuValue {
 ///
 /// Eucalypt uses JSON-compatible string syntax, so we delegate to
 /// `serde_json` for correct escaping.
+/// Spell a string so that it reads back as the same text
+///
+/// A plain string has no escapes, so text that needs one is spelt as a
+/// C-style string.
 fn eu_quote_str(s: &str) -> String {
-    serde_json::to_string(s).unwrap_or_else(|_| format!("{s:?}"))
+    let needs_escape = |c: char| matches!(c, '"' | '\\' | '{' | '}') || c.is_control();
+    if !s.contains(needs_escape) {
+        return format!("\"{s}\"");
+    }
+    let mut out = String::from("c\"");
+    for c in s.chars() {
+        match c {
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            '"' | '\\' | '{' | '}' => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c.is_control() => out.push_str(&format!("\\U{:08x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
+/// Spell a name so that it reads back as the same name, quoting it if need be
+///
+/// Nothing can be escaped in a quoted name, so one that holds a quote cannot
+/// be spelt at all.
+fn eu_name(name: &str) -> Option<String> {
+    let mut chars = name.chars();
+    let is_bare = chars.next().is_some_and(is_normal_start)
+        && chars.all(is_normal_continuation)
+        && !matches!(name, "true" | "false" | "null");
+    if is_bare {
+        Some(name.to_string())
+    } else if name.contains('\'') {
+        None
+    } else {
+        Some(format!("'{name}'"))
+    }
+}
+
+/// Reject a name that eucalypt source has no spelling for
+fn unspeakable_name(name: &str) -> Option<Rejection> {
+    match eu_name(name) {
+        Some(_) => None,
+        None => Some(Rejection::new(format!(
+            "eucalypt has no way to write the name \"{name}\", because a quoted name cannot hold a quote"
+        ))),
+    }
+}
+
+/// Spell a number as a literal: eucalypt source has no exponents
+fn eu_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => {
+            let digits = format!("{f}");
+            if digits.contains('.') {
+                digits
+            } else {
+                format!("{digits}.0")
+            }
+        }
+        _ => n.to_string(),
+    }
 }
 
-/// Convert an `EuValue` to a `pretty` document for rendering.
 fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
     match val {
         EuValue::Null => RcDoc::text("null"),
         EuValue::Bool(b) => RcDoc::text(if *b { "true" } else { "false" }),
-        EuValue::Sym(s) => RcDoc::text(format!(":{s}")),
+        EuValue::Sym(s) => RcDoc::text(format!(":{}", eu_name(s).unwrap_or_else(|| s.clone()))),
         EuValue::Str(s) => RcDoc::text(eu_quote_str(s)),
-        EuValue::Num(n) => RcDoc::text(format!("{n}")),
-        EuValue::ZonedDateTime(dt) => RcDoc::text(eu_quote_str(&format!("{dt}"))),
+        EuValue::Num(n) => RcDoc::text(eu_number(n)),
+        EuValue::ZonedDateTime(dt) => RcDoc::text(format!("t\"{}\"", dt.to_rfc3339())),
         EuValue::Array(items) => {
             if items.is_empty() {
                 return RcDoc::text("[]");
@@ -98,7 +164,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
             let docs: Vec<RcDoc<'static>> = pairs
                 .iter()
                 .map(|(k, v)| {
-                    RcDoc::text(format!("{k}:"))
+                    RcDoc::text(format!("{}:", eu_name(k).unwrap_or_else(|| k.clone())))
                         .append(RcDoc::space())
                         .append(eu_to_doc(v))
                 })
@@ -150,7 +216,15 @@ impl Emitter for EuEmitter<'_> {
     fn unacceptable(&self, event: &Event) -> Option<Rejection> {
         // eucalypt block keys are names, so anything that is not a symbol or
         // a string cannot be written back as eucalypt source that re-parses.
-        super::unrepresentable_key("eucalypt block", self.accum.expecting_key(), event)
+        super::unrepresentable_key("eucalypt block", self.accum.expecting_key(), event).or_else(
+            || match event {
+                Event::OutputScalar(_, Primitive::Str(k)) if self.accum.expecting_key() => {
+                    unspeakable_name(k)
+                }
+                Event::OutputScalar(_, Primitive::Sym(k)) => unspeakable_name(k),
+                _ => None,
+            },
+        )
     }
 
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
-- 
2.43.0


From 759c95da7a717d37f0fb52986bea179f15db62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 42/61] fix: TOML output is always a valid TOML document

---
 src/export/table.rs |  5 +++
 src/export/toml.rs  | 95 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 98 insertions(+), 2 deletions(-)

diff --git a/src/export/table.rs b/src/export/table.rs
index 25e3457..91bfec0 100644
--- a/src/export/table.rs
+++ b/src/export/table.rs
@@ -181,6 +181,11 @@ where
         self.result.as_ref()
     }
 
+    /// Whether the next value consumed will be the whole document.
+    pub fn expecting_document(&self) -> bool {
+        matches!(self.stack.last(), None | Some(Expectation::Value(_)))
+    }
+
     /// Whether the next scalar consumed will become a block key.
     ///
     /// Formats whose keys are restricted — JSON and TOML have string keys
diff --git a/src/export/toml.rs b/src/export/toml.rs
index d3b1cd0..9a63ebd 100644
--- a/src/export/toml.rs
+++ b/src/export/toml.rs
@@ -56,6 +56,77 @@ fn toml_unrepresentable(primitive: &Primitive) -> Option<Rejection> {
     }
 }
 
+/// Whether a value holds a table that headers cannot introduce
+///
+/// A list of tables is written as `[[key]]` sections, but a table that
+/// shares its list with other values, or whose list is itself in a list,
+/// can only be written in line.
+fn needs_inline_table(value: &Value) -> bool {
+    fn holds_table(v: &Value) -> bool {
+        match v {
+            Value::Table(_) => true,
+            Value::Array(xs) => xs.iter().any(holds_table),
+            _ => false,
+        }
+    }
+    match value {
+        Value::Table(t) => t.values().any(needs_inline_table),
+        Value::Array(xs) if !xs.is_empty() && xs.iter().all(Value::is_table) => {
+            xs.iter().any(needs_inline_table)
+        }
+        Value::Array(xs) => xs.iter().any(holds_table),
+        _ => false,
+    }
+}
+
+/// A value as it is written in line
+fn toml_inline(value: &Value) -> String {
+    match value {
+        Value::String(s) => toml_basic_string(s),
+        Value::Array(xs) => {
+            let items: Vec<String> = xs.iter().map(toml_inline).collect();
+            format!("[{}]", items.join(", "))
+        }
+        Value::Table(t) if t.is_empty() => "{}".to_string(),
+        Value::Table(t) => {
+            let entries: Vec<String> = t
+                .iter()
+                .map(|(k, v)| format!("{} = {}", toml_key(k), toml_inline(v)))
+                .collect();
+            format!("{{ {} }}", entries.join(", "))
+        }
+        scalar => scalar.to_string(),
+    }
+}
+
+fn toml_key(key: &str) -> String {
+    let is_bare = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-';
+    if !key.is_empty() && key.chars().all(is_bare) {
+        key.to_string()
+    } else {
+        toml_basic_string(key)
+    }
+}
+
+fn toml_basic_string(text: &str) -> String {
+    let mut out = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            c if c.is_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
 impl AsKey<String> for Value {
     fn as_key(&self) -> String {
         // Rejected by `unacceptable` before reaching here; fall back to the
@@ -140,7 +211,17 @@ impl Emitter for TomlEmitter<'_> {
     }
 
     fn unacceptable(&self, event: &Event) -> Option<Rejection> {
-        super::unrepresentable_key("TOML", self.accum.expecting_key(), event)
+        match event {
+            Event::OutputScalar(..) | Event::OutputSequenceStart(_)
+                if self.accum.expecting_document() =>
+            {
+                Some(
+                    Rejection::new("a TOML document is a table, so only a block can be rendered")
+                        .with_notes(["put the value in a block, e.g. '{ value: ... }'"]),
+                )
+            }
+            _ => super::unrepresentable_key("TOML", self.accum.expecting_key(), event),
+        }
     }
 
     fn unrepresentable(&self, primitive: &Primitive) -> Option<Rejection> {
@@ -150,7 +231,17 @@ impl Emitter for TomlEmitter<'_> {
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
         self.accum.consume(event);
         if let Some(result) = self.accum.result() {
-            writeln!(self.out, "{result}")?;
+            let inline = result
+                .as_table()
+                .filter(|root| root.values().any(needs_inline_table));
+            if let Some(root) = inline {
+                for (k, v) in root {
+                    writeln!(self.out, "{} = {}", toml_key(k), toml_inline(v))?;
+                }
+                writeln!(self.out)?;
+            } else {
+                writeln!(self.out, "{result}")?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From b5bc1b2a6c011aa0e0822bbb134e3d4ae5403035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 43/61] fix: EDN output writes keys that are no keyword names
 as strings

---
 src/export/edn.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/export/edn.rs b/src/export/edn.rs
index 022af00..d2d23d1 100644
--- a/src/export/edn.rs
+++ b/src/export/edn.rs
@@ -9,6 +9,24 @@ use num_bigint::BigInt;
 use ordered_float::OrderedFloat;
 use std::io::Write;
 
+/// Whether a symbol can be written as an EDN keyword
+///
+/// One that cannot is written as a string, as it is in formats without
+/// keywords.
+fn is_keyword_name(name: &str) -> bool {
+    let is_part = |part: &str| {
+        let mut chars = part.chars();
+        chars
+            .next()
+            .is_some_and(|c| c.is_alphabetic() || "*!_?$%&=<>".contains(c))
+            && chars.all(|c| c.is_alphanumeric() || ".*+!-_?$%&=<>".contains(c))
+    };
+    match name.split_once('/') {
+        Some((namespace, name)) => is_part(namespace) && is_part(name),
+        None => is_part(name),
+    }
+}
+
 impl AsKey<Value> for Value {
     fn as_key(&self) -> Value {
         self.clone()
@@ -20,7 +38,8 @@ impl FromPrimitive for Value {
         match primitive {
             Primitive::Null => Value::Nil,
             Primitive::Bool(b) => Value::Boolean(*b),
-            Primitive::Sym(s) => Value::Keyword(Keyword::from_name(s)),
+            Primitive::Sym(s) if is_keyword_name(s) => Value::Keyword(Keyword::from_name(s)),
+            Primitive::Sym(s) => Value::String(s.clone()),
             Primitive::Str(s) => Value::String(s.clone()),
             Primitive::Num(n) => {
                 if let Some(i) = n.as_i64() {
-- 
2.43.0


From 39908d1fda0295c87630581af7562b37972c92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 44/61] fix: html output writes void and script elements as
 such and refuses what is not markup

---
 src/export/html.rs   |  5 ++-
 src/export/markup.rs | 99 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+), 2 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index dd8dfd8..d57b575 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -18,7 +18,8 @@ impl Serialize for Element {
     where
         S: Serializer,
     {
-        let tag_name = QualName::new(None, ns!(), LocalName::from(self.tag()));
+        // Void and raw text elements are only known as such in the namespace
+        let tag_name = QualName::new(None, ns!(html), LocalName::from(self.tag()));
         let keys: Vec<_> = self
             .attrs()
             .iter()
@@ -62,7 +63,7 @@ impl MarkupSerialiser for HtmlMarkupSerialiser<'_> {
         let mut serializer = HtmlSerializer::new(
             self.out.as_mut(),
             SerializeOpts {
-                scripting_enabled: true,
+                scripting_enabled: false,
                 traversal_scope: TraversalScope::IncludeNode,
                 create_missing_parent: true,
             },
diff --git a/src/export/markup.rs b/src/export/markup.rs
index a0b409b..c44747d 100644
--- a/src/export/markup.rs
+++ b/src/export/markup.rs
@@ -63,6 +63,23 @@ pub enum Item {
     Content(String),
 }
 
+/// Elements which have no contents
+const VOID_ELEMENTS: [&str; 18] = [
+    "area", "base", "basefont", "bgsound", "br", "col", "embed", "frame", "hr", "img", "input",
+    "keygen", "link", "meta", "param", "source", "track", "wbr",
+];
+
+/// Elements whose contents are text without escapes
+const RAW_TEXT_ELEMENTS: [&str; 7] = [
+    "iframe",
+    "noembed",
+    "noframes",
+    "plaintext",
+    "script",
+    "style",
+    "xmp",
+];
+
 /// A specific serialisation (e.g. HTML5, XML, ...)
 pub trait MarkupSerialiser {
     fn serialise(&mut self, root: Element) -> Result<(), RenderError>;
@@ -164,6 +181,47 @@ where
                 "the value to render is a single scalar, but markup output \
                  needs a hiccup element — a list whose first item is the tag",
             )),
+            Event::OutputSequenceEnd
+                if matches!(self.stack.as_slice(), [Expectation::EmptyElement]) =>
+            {
+                Some(markup_rejection(
+                    "an empty list is not an element, because it has no tag",
+                ))
+            }
+            Event::OutputSequenceStart(_) | Event::OutputBlockStart(_)
+                if matches!(self.stack.last(), Some(Expectation::EmptyElement)) =>
+            {
+                Some(markup_rejection(
+                    "a list or block was found where an element's tag should be",
+                ))
+            }
+            Event::OutputScalar(_, _) | Event::OutputSequenceStart(_)
+                if matches!(self.stack.last(), Some(Expectation::TaggedElement(_))) =>
+            {
+                Some(markup_rejection(
+                    "an element's contents were found where its attribute block should be",
+                ))
+            }
+            Event::OutputSequenceStart(_) => match self.stack.last() {
+                Some(Expectation::OpenElement(e))
+                    if VOID_ELEMENTS.contains(&e.tag()) || RAW_TEXT_ELEMENTS.contains(&e.tag()) =>
+                {
+                    Some(markup_rejection(&format!(
+                        "a {} element cannot hold other elements",
+                        e.tag()
+                    )))
+                }
+                _ => None,
+            },
+            Event::OutputBlockStart(_)
+                if matches!(self.stack.last(), Some(Expectation::OpenElement(_))) =>
+            {
+                Some(markup_rejection(
+                    "a block was found among an element's contents, which can only be \
+                     elements and text",
+                ))
+            }
+            Event::OutputScalar(_, prim) => self.unspeakable(prim),
             // Guards for the two shapes that previously reached a panic!
             // inside `emit`. Both mean an attribute block was left open
             // where an element was expected.
@@ -195,6 +253,47 @@ where
         }
     }
 
+    /// Describe why `prim` cannot be written where it stands, or `None` if
+    /// it can: names and the text of elements like `script` have no escapes.
+    fn unspeakable(&self, prim: &Primitive) -> Option<Rejection> {
+        let is_name_char =
+            |c: char| !c.is_whitespace() && !c.is_control() && !"\"'<>/=&".contains(c);
+        let text = as_text(prim);
+        match self.stack.last() {
+            Some(Expectation::EmptyElement)
+                if !text.starts_with(|c: char| c.is_ascii_alphabetic())
+                    || !text.chars().all(is_name_char) =>
+            {
+                Some(markup_rejection(&format!(
+                    "\"{text}\" cannot be the tag of an element"
+                )))
+            }
+            Some(Expectation::EvenAttrAccumulation(_))
+                if text.is_empty() || !text.chars().all(is_name_char) =>
+            {
+                Some(markup_rejection(&format!(
+                    "\"{text}\" cannot be the name of an attribute"
+                )))
+            }
+            Some(Expectation::OpenElement(e)) if VOID_ELEMENTS.contains(&e.tag()) => Some(
+                markup_rejection(&format!("a {} element cannot have contents", e.tag())),
+            ),
+            Some(Expectation::OpenElement(e))
+                if RAW_TEXT_ELEMENTS.contains(&e.tag())
+                    && (text.contains("<!--")
+                        || text
+                            .to_ascii_lowercase()
+                            .contains(&format!("</{}", e.tag()))) =>
+            {
+                Some(markup_rejection(&format!(
+                    "the text of a {} element cannot be escaped, so it cannot hold what would end it",
+                    e.tag()
+                )))
+            }
+            _ => None,
+        }
+    }
+
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
         match event {
             Event::OutputScalar(_, prim) => {
-- 
2.43.0


From e7c5eebe8533d7f5974cbf9fece4ab3cf49610ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 45/61] fix: tags of computed values are rendered and
 suppressed values of computed blocks are left out

---
 src/eval/stg/render.rs | 61 +++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/eval/stg/render.rs b/src/eval/stg/render.rs
index d8f5d30..e8eaab0 100644
--- a/src/eval/stg/render.rs
+++ b/src/eval/stg/render.rs
@@ -16,7 +16,7 @@ use crate::{
 use super::{
     block::LookupOr,
     boolean::{And, Not, Or},
-    emit::EmitNative,
+    emit::{EmitNative, EmitTagBlockStart, EmitTagNative, EmitTagSeqStart},
     eq::Eq,
     panic::Panic,
     support::machine_return_bool,
@@ -73,7 +73,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [num] [tagfn tag] [boxnum]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    force(EmitTagNative.global(lref(3), lref(1)), unit()),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [num] [tagfn tag] [boxnum]
                             ),
@@ -84,7 +84,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [sym] [tagfn tag] [boxsym]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    force(EmitTagNative.global(lref(3), lref(1)), unit()),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [sym] [tagfn tag] [boxsym]
                             ),
@@ -95,7 +95,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxstr]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    force(EmitTagNative.global(lref(3), lref(1)), unit()),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxstr] [tagfn tag]
                             ),
@@ -106,7 +106,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tagstr] [str] [tagfn tag] [boxtd]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    force(EmitTagNative.global(lref(3), lref(1)), unit()),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [str] [boxtd] [tagfn tag]
                             ),
@@ -117,7 +117,7 @@ impl StgIntrinsic for Render {
                                 local(2),
                                 vec![(
                                     DataConstructor::BoxedString.tag(), // [tag] [zdt] [tagfn tag] [boxzdt]
-                                    force(call::bif::emit_tag_native(lref(0), lref(1)), unit()),
+                                    force(EmitTagNative.global(lref(3), lref(1)), unit()),
                                 )],
                                 force(EmitNative.global(lref(1)), unit()), // [()] [zdt] [tagfn tag] [boxzdt]
                             ),
@@ -130,7 +130,7 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [h t] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        force(EmitTagSeqStart.global(lref(4)), unit()),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ), // [()] [h t] [tagfn tag] [cons],
@@ -144,7 +144,7 @@ impl StgIntrinsic for Render {
                                     local(1),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // // [tagstr] [] [lcons] [tagfn tag]
-                                        force(call::bif::emit_tag_seq_start(lref(0)), unit()),
+                                        force(EmitTagSeqStart.global(lref(2)), unit()),
                                     )],
                                     call::bif::emit_seq_start(),
                                 ),
@@ -158,7 +158,7 @@ impl StgIntrinsic for Render {
                                     local(3),
                                     vec![(
                                         DataConstructor::BoxedString.tag(), // [tagstr] [items index] [tagfn tag]
-                                        force(call::bif::emit_tag_block_start(lref(0)), unit()),
+                                        force(EmitTagBlockStart.global(lref(4)), unit()),
                                     )],
                                     call::bif::emit_block_start(), // [()] [items index] [tagfn tag]
                                 ),
@@ -169,7 +169,14 @@ impl StgIntrinsic for Render {
                             ),
                         ),
                     ],
-                    EmitNative.global(lref(0)),
+                    case(
+                        local(2), // [native] [tagfn tag]
+                        vec![(
+                            DataConstructor::BoxedString.tag(), // [tagstr] [native] [tagfn tag]
+                            EmitTagNative.global(lref(3), lref(1)),
+                        )],
+                        EmitNative.global(lref(1)),
+                    ),
                 ),
             ),
         );
@@ -430,7 +437,7 @@ impl StgIntrinsic for RenderKv {
                         DataConstructor::BlockPair.tag(), // [k v] [kv]
                         switch(
                             let_(
-                                vec![value_renderable],
+                                vec![value_renderable.clone()],
                                 // [v_r] [k v] [kv]
                                 app(lref(0), vec![lref(2)]),
                             ),
@@ -448,7 +455,37 @@ impl StgIntrinsic for RenderKv {
                     ),
                     (
                         DataConstructor::BlockKvList.tag(), // [cons] [kv]
-                        RenderItems.global(lref(0)),
+                        case(
+                            local(0),
+                            vec![(
+                                DataConstructor::ListCons.tag(), // [k t] [cons] [kv]
+                                case(
+                                    local(1),
+                                    vec![(
+                                        DataConstructor::ListCons.tag(), // [v r] [k t] [cons] [kv]
+                                        switch(
+                                            let_(
+                                                vec![value_renderable.clone()],
+                                                // [v_r] [v r] [k t] [cons] [kv]
+                                                app(lref(0), vec![lref(1)]),
+                                            ),
+                                            vec![
+                                                (
+                                                    DataConstructor::BoolTrue.tag(),
+                                                    force(
+                                                        Render.global(lref(2)), // [()] [v r] [k t] [cons] [kv]
+                                                        Render.global(lref(1)),
+                                                    ),
+                                                ),
+                                                (DataConstructor::BoolFalse.tag(), unit()),
+                                            ],
+                                        ),
+                                    )],
+                                    RenderItems.global(lref(3)), // [t'] [k t] [cons] [kv]
+                                ),
+                            )],
+                            RenderItems.global(lref(0)),
+                        ),
                     ),
                 ],
                 unit(),
-- 
2.43.0


From d0e1403e517eb9effdb916c4e3939df33a61b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 46/61] fix: a key named import in a value is data, not an
 import

---
 src/syntax/import.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/syntax/import.rs b/src/syntax/import.rs
index 33ad3dc..4f08d77 100644
--- a/src/syntax/import.rs
+++ b/src/syntax/import.rs
@@ -155,7 +155,7 @@ fn read_rowan_ast_imports(ast: &ParsedAst, imports: &mut Vec<Input>) -> Result<(
             // Check unit metadata for imports
             if let Some(meta) = unit.meta() {
                 if let Some(meta_soup) = meta.soup() {
-                    read_rowan_soup_imports(&meta_soup, imports)?;
+                    read_rowan_soup_imports(&meta_soup, true, imports)?;
                 }
             }
 
@@ -164,20 +164,20 @@ fn read_rowan_ast_imports(ast: &ParsedAst, imports: &mut Vec<Input>) -> Result<(
                 // Check declaration metadata
                 if let Some(meta) = decl.meta() {
                     if let Some(meta_soup) = meta.soup() {
-                        read_rowan_soup_imports(&meta_soup, imports)?;
+                        read_rowan_soup_imports(&meta_soup, true, imports)?;
                     }
                 }
 
                 // Check declaration body for imports
                 if let Some(body) = decl.body() {
                     if let Some(body_soup) = body.soup() {
-                        read_rowan_soup_imports(&body_soup, imports)?;
+                        read_rowan_soup_imports(&body_soup, false, imports)?;
                     }
                 }
             }
         }
         ParsedAst::Soup(soup) => {
-            read_rowan_soup_imports(soup, imports)?;
+            read_rowan_soup_imports(soup, false, imports)?;
         }
     }
 
@@ -185,9 +185,13 @@ fn read_rowan_ast_imports(ast: &ParsedAst, imports: &mut Vec<Input>) -> Result<(
 }
 
 /// Read imports from a Rowan Soup expression
+///
+/// A block imports only where it is the metadata of a unit, block or
+/// declaration; elsewhere `import` is a key like any other.
 #[cfg(not(target_arch = "wasm32"))]
 fn read_rowan_soup_imports(
     soup: &crate::syntax::rowan::ast::Soup,
+    is_metadata: bool,
     imports: &mut Vec<Input>,
 ) -> Result<(), ImportError> {
     use crate::syntax::rowan::ast::{AstToken, Element, HasSoup};
@@ -196,7 +200,7 @@ fn read_rowan_soup_imports(
         match element {
             Element::Block(block) => {
                 // Check if this block contains import declarations
-                for decl in block.declarations() {
+                for decl in block.declarations().filter(|_| is_metadata) {
                     if let Some(head) = decl.head() {
                         let kind = head.classify_declaration();
                         if let crate::syntax::rowan::ast::DeclarationKind::Property(prop) = kind {
@@ -215,7 +219,7 @@ fn read_rowan_soup_imports(
                 // Check block metadata for imports (recursive)
                 if let Some(meta) = block.meta() {
                     if let Some(meta_soup) = meta.soup() {
-                        read_rowan_soup_imports(&meta_soup, imports)?;
+                        read_rowan_soup_imports(&meta_soup, true, imports)?;
                     }
                 }
 
@@ -223,7 +227,7 @@ fn read_rowan_soup_imports(
                 for decl in block.declarations() {
                     if let Some(meta) = decl.meta() {
                         if let Some(meta_soup) = meta.soup() {
-                            read_rowan_soup_imports(&meta_soup, imports)?;
+                            read_rowan_soup_imports(&meta_soup, true, imports)?;
                         }
                     }
 
@@ -249,31 +253,31 @@ fn read_rowan_soup_imports(
                             )
                         })
                         .unwrap_or(false);
-                    if is_import_decl {
+                    if is_metadata && is_import_decl {
                         continue;
                     }
 
                     // Check declaration body for imports (recursive)
                     if let Some(body) = decl.body() {
                         if let Some(body_soup) = body.soup() {
-                            read_rowan_soup_imports(&body_soup, imports)?;
+                            read_rowan_soup_imports(&body_soup, false, imports)?;
                         }
                     }
                 }
             }
             Element::List(list) => {
                 for item in list.items() {
-                    read_rowan_soup_imports(&item, imports)?;
+                    read_rowan_soup_imports(&item, false, imports)?;
                 }
             }
             Element::ParenExpr(paren) => {
                 if let Some(soup) = paren.soup() {
-                    read_rowan_soup_imports(&soup, imports)?;
+                    read_rowan_soup_imports(&soup, is_metadata, imports)?;
                 }
             }
             Element::ApplyTuple(tuple) => {
                 for item in tuple.items() {
-                    read_rowan_soup_imports(&item, imports)?;
+                    read_rowan_soup_imports(&item, false, imports)?;
                 }
             }
             _ => {
-- 
2.43.0


From abc1baaa7adfcca8d3bcd6e5b5ee1b7d4f77c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 47/61] fix: the largest floats are read whatever their
 spelling

---
 src/common/number.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/number.rs b/src/common/number.rs
index 39c47f7..185dcb8 100644
--- a/src/common/number.rs
+++ b/src/common/number.rs
@@ -10,11 +10,11 @@ use serde_json::Number;
 /// Accepts exactly what `serde_json` accepts, but rounds correctly:
 /// `serde_json`'s default float parser may be out in the last place.
 pub fn parse_number(text: &str) -> Option<Number> {
-    let number = Number::from_str(text).ok()?;
-    if number.is_f64() {
-        Number::from_f64(text.parse::<f64>().ok()?)
-    } else {
-        Some(number)
+    match Number::from_str(text) {
+        Ok(number) if !number.is_f64() => Some(number),
+        // serde_json takes some spellings of the largest floats as infinite
+        Err(e) if !e.to_string().starts_with("number out of range") => None,
+        _ => Number::from_f64(text.parse::<f64>().ok()?),
     }
 }
 
-- 
2.43.0


From ca8b143aca451360cecbdcac5582c10a29684618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 48/61] fix: eu output keeps null, true and false apart from
 keys of those names

---
 src/export/eu.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/export/eu.rs b/src/export/eu.rs
index 49dc5a3..5a4a89c 100644
--- a/src/export/eu.rs
+++ b/src/export/eu.rs
@@ -138,10 +138,24 @@ fn eu_number(n: &serde_json::Number) -> String {
     }
 }
 
-fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
+/// Whether some key hides what `null`, `true` or `false` normally mean
+fn hides_literals(val: &EuValue) -> bool {
     match val {
-        EuValue::Null => RcDoc::text("null"),
-        EuValue::Bool(b) => RcDoc::text(if *b { "true" } else { "false" }),
+        EuValue::Array(items) => items.iter().any(hides_literals),
+        EuValue::Block(pairs) => pairs
+            .iter()
+            .any(|(k, v)| matches!(k.as_str(), "true" | "false" | "null") || hides_literals(v)),
+        _ => false,
+    }
+}
+
+/// Lay a value out; `hidden` tells that `null`, `true` and `false` are names
+/// of something else, so that their intrinsics are written instead.
+fn eu_to_doc(val: &EuValue, hidden: bool) -> RcDoc<'static> {
+    match val {
+        EuValue::Null => RcDoc::text(if hidden { "__NULL" } else { "null" }),
+        EuValue::Bool(true) => RcDoc::text(if hidden { "__TRUE" } else { "true" }),
+        EuValue::Bool(false) => RcDoc::text(if hidden { "__FALSE" } else { "false" }),
         EuValue::Sym(s) => RcDoc::text(format!(":{}", eu_name(s).unwrap_or_else(|| s.clone()))),
         EuValue::Str(s) => RcDoc::text(eu_quote_str(s)),
         EuValue::Num(n) => RcDoc::text(eu_number(n)),
@@ -150,7 +164,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
             if items.is_empty() {
                 return RcDoc::text("[]");
             }
-            let docs: Vec<RcDoc<'static>> = items.iter().map(eu_to_doc).collect();
+            let docs: Vec<RcDoc<'static>> = items.iter().map(|v| eu_to_doc(v, hidden)).collect();
             let body = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::line()));
             RcDoc::text("[")
                 .append(RcDoc::line_().append(body).append(RcDoc::line_()).nest(2))
@@ -166,7 +180,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
                 .map(|(k, v)| {
                     RcDoc::text(format!("{}:", eu_name(k).unwrap_or_else(|| k.clone())))
                         .append(RcDoc::space())
-                        .append(eu_to_doc(v))
+                        .append(eu_to_doc(v, hidden))
                 })
                 .collect();
             let body = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::line()));
@@ -185,7 +199,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
 
 /// Render an `EuValue` as a eucalypt-syntax string.
 fn render_eu_value(val: &EuValue) -> Result<String, RenderError> {
-    let doc = eu_to_doc(val);
+    let doc = eu_to_doc(val, hides_literals(val));
     let mut buf = Vec::new();
     doc.render(80, &mut buf)
         .map_err(|e| RenderError::Serialisation(format!("failed to render eu value: {e}")))?;
-- 
2.43.0


From 13181a1c8e989110c77a9118960e1b5688ca6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 49/61] fix: collecting inputs works with the pre-compiled
 prelude

---
 src/driver/prepare.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/driver/prepare.rs b/src/driver/prepare.rs
index d6d8346..f5a8205 100644
--- a/src/driver/prepare.rs
+++ b/src/driver/prepare.rs
@@ -171,8 +171,13 @@ pub fn prepare(
 
         if let Some(collection_name) = opt.collection() {
             // For collection mode, substitute prelude in each segment.
-            let eff_prologue =
-                apply_prelude_override(opt.prologue_inputs(), loader.prelude_override());
+            // Only inputs that were loaded take part: the prelude is not among
+            // them when its pre-compiled blob is active.
+            let eff_prologue: Vec<Input> =
+                apply_prelude_override(opt.prologue_inputs(), loader.prelude_override())
+                    .into_iter()
+                    .filter(|i| effective_inputs.contains(i))
+                    .collect();
             loader.collect_and_merge_units(
                 collection_name,
                 opt.name_inputs(),
-- 
2.43.0


From aab70b5ba000abcfe9966695db6e8682f627405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 50/61] fix: a repeated --eval takes the last expression

---
 src/driver/options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/options.rs b/src/driver/options.rs
index f9de068..728290c 100644
--- a/src/driver/options.rs
+++ b/src/driver/options.rs
@@ -194,7 +194,7 @@ pub struct RunArgs {
     pub target: Option<String>,
 
     /// Expression to evaluate
-    #[arg(short = 'e', long = "eval")]
+    #[arg(short = 'e', long = "eval", overrides_with = "evaluate")]
     pub evaluate: Option<String>,
 
     /// Output file to export to
-- 
2.43.0


From e6937ed4f786b191975b2dfe2766255eed74f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 51/61] fix: internal declarations neither hide nor capture
 other units' names

---
 src/core/expr.rs      | 144 ++++++++++++++++++++++--------------------
 src/driver/prepare.rs |   1 +
 src/driver/source.rs  |  14 ++++
 3 files changed, 90 insertions(+), 69 deletions(-)

diff --git a/src/core/expr.rs b/src/core/expr.rs
index c9eaa25..e98b7f0 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -565,32 +565,20 @@ impl RcExpr {
     }
 
     /// Replace the body of a let (or nested lets) with the specified body
+    ///
+    /// Internal bindings are renamed first, so that no name in the new
+    /// body can resolve to them (here or in any later pass that opens and
+    /// closes scopes by name), and a name they share with an enclosing
+    /// binding still resolves to that.
     pub fn rebody(&self, new_body: RcExpr) -> RcExpr {
-        let result = self.rebody_int(&mut SimpleEnvironment::new(), new_body);
-        // Collect internal binding names from the lib's let scope.  After
-        // rebody_int the importer's body is nested inside the lib's let scope,
-        // so any Var::Free("internal-name") that slipped through prepare_capture_vars
-        // would be re-bound by the cook phase's open/close-let-scope cycle.
-        // We rename them to "__eu_internal:<name>" — a name that cannot appear in
-        // user source — so that close_let_scope cannot match them, keeping them
-        // permanently free and causing a CompileError::FreeVar at STG compile time.
-        let internal_names = collect_internal_binding_names(self);
-        if internal_names.is_empty() {
-            result
-        } else {
-            mask_internal_free_vars(&internal_names, &result)
-        }
+        rename_internal_bindings(self).rebody_int(&mut SimpleEnvironment::new(), new_body)
     }
 
     /// Retrieve the bound names in a let binding so we can prepare to capture using them.
-    ///
-    /// Internal bindings (those with `export: :internal` metadata) are excluded
-    /// from the capture environment so that importers cannot reference them.
     fn prepare_capture_vars(scope: &LetScope<RcExpr>) -> HashMap<String, String> {
         scope
             .pattern
             .iter()
-            .filter(|b| !has_internal_export(&b.expr))
             .map(|b| (b.name.clone(), b.name.clone()))
             .collect()
     }
@@ -610,21 +598,7 @@ impl RcExpr {
                 // Use bind_free_vars (not close_expr_vars) to avoid shifting
                 // existing de Bruijn indices that are already correct from a
                 // previous merge step.
-                // Position-preserving capture mask: internal bindings keep their
-                // slot (preserving de Bruijn indices for all public bindings) but
-                // are replaced with a non-matchable placeholder so that no free
-                // variable can be captured into an internal slot.
-                let names: Vec<&str> = scope
-                    .pattern
-                    .iter()
-                    .map(|b| {
-                        if has_internal_export(&b.expr) {
-                            "\x00"
-                        } else {
-                            b.name.as_str()
-                        }
-                    })
-                    .collect();
+                let names: Vec<&str> = scope.pattern.iter().map(|b| b.name.as_str()).collect();
                 let closed_body = bind_free_vars(&names, 0, &rebodied);
                 let ret = RcExpr::from(Expr::Let(
                     *s,
@@ -1700,8 +1674,8 @@ pub fn open_expr_vars(names: &[Option<&str>], depth: u32, expr: &RcExpr) -> RcEx
 /// Return `true` if `expr` has `export: :internal` in its outermost `Meta` wrapper.
 ///
 /// Used by:
-/// - `rebody_int`: to build a position-preserving capture mask (M3 of the
-///   `export: :internal` spec).
+/// - `rebody`: to keep internal bindings out of an importer's reach (M3 of
+///   the `export: :internal` spec).
 /// - Block / Unit desugaring: to exclude `:internal` bindings from the
 ///   block-value field list (M2).
 pub fn has_internal_export(expr: &RcExpr) -> bool {
@@ -1718,52 +1692,84 @@ pub fn has_internal_export(expr: &RcExpr) -> bool {
     )
 }
 
-/// The prefix used to mangle internal binding names when they appear as free
-/// variables in an importer's body.  This ensures the cook phase cannot
-/// re-bind them via `close_let_scope` and they reach the STG compiler as
-/// genuine free variables, triggering `CompileError::FreeVar`.
-pub const INTERNAL_FREE_VAR_PREFIX: &str = "__eu_internal:";
+/// The prefix given to the names of internal bindings when their unit is
+/// merged with one that follows or imports it.  No name in user source can
+/// match it, so references from the other unit never resolve to them.
+const INTERNAL_BINDING_PREFIX: &str = "__eu_hidden:";
 
-/// Collect all binding names that are marked `export: :internal` from a let
-/// expression (and its nested let bodies).  Used by `rebody` to find which
-/// names need to be masked in the imported body.
-pub fn collect_internal_binding_names(expr: &RcExpr) -> Vec<String> {
-    let mut out = Vec::new();
-    collect_internal_binding_names_inner(expr, &mut out);
-    out
-}
+/// The prefix given to references that nothing in scope resolves but which
+/// name an internal binding of a merged unit, so that the STG compiler can
+/// explain its `CompileError::FreeVar`.
+pub const INTERNAL_FREE_VAR_PREFIX: &str = "__eu_internal:";
 
-fn collect_internal_binding_names_inner(expr: &RcExpr, out: &mut Vec<String>) {
-    match &*expr.inner {
-        Expr::Let(_, scope, _) => {
-            for b in &scope.pattern {
-                if has_internal_export(&b.expr) {
-                    out.push(b.name.clone());
-                }
+/// Mark the free variables of a merged expression which name an internal
+/// binding of one of its units with [`INTERNAL_FREE_VAR_PREFIX`], except
+/// those that `is_global` says are defined outside the expression.
+pub fn mark_internal_references(expr: &RcExpr, is_global: &dyn Fn(&str) -> bool) -> RcExpr {
+    fn collect<'a>(expr: &'a RcExpr, out: &mut Vec<&'a str>) {
+        match &*expr.inner {
+            Expr::Let(_, scope, _) => {
+                out.extend(
+                    scope
+                        .pattern
+                        .iter()
+                        .filter_map(|b| b.name.strip_prefix(INTERNAL_BINDING_PREFIX)),
+                );
+                collect(&scope.body, out);
             }
-            collect_internal_binding_names_inner(&scope.body, out);
+            Expr::Meta(_, e, _) => collect(e, out),
+            _ => {}
         }
-        Expr::Meta(_, e, _) => collect_internal_binding_names_inner(e, out),
-        _ => {}
     }
-}
 
-/// Walk `expr` and rename every `Var::Free(name)` where `name` is in
-/// `internal_names` to `Var::Free("__eu_internal:<name>")`.  Only free
-/// variables are affected — bound variables (de Bruijn) are untouched.
-pub fn mask_internal_free_vars(internal_names: &[String], expr: &RcExpr) -> RcExpr {
+    let mut names = Vec::new();
+    collect(expr, &mut names);
+    names.retain(|n| !is_global(n));
+    if names.is_empty() {
+        return expr.clone();
+    }
     expr.substs_free(&|n: &str| {
-        if internal_names.iter().any(|s| s == n) {
-            Some(RcExpr::from(Expr::Var(
+        names.contains(&n).then(|| {
+            RcExpr::from(Expr::Var(
                 Smid::default(),
                 Var::Free(format!("{}{}", INTERNAL_FREE_VAR_PREFIX, n)),
-            )))
-        } else {
-            None
-        }
+            ))
+        })
     })
 }
 
+/// Rename the bindings marked `export: :internal` in a let expression (and
+/// its nested let bodies).  References to them are bound by index, so they
+/// are unaffected.
+fn rename_internal_bindings(expr: &RcExpr) -> RcExpr {
+    match &*expr.inner {
+        Expr::Let(s, scope, let_type) => {
+            let pattern = scope
+                .pattern
+                .iter()
+                .map(|b| {
+                    let mut binding = b.clone();
+                    if has_internal_export(&b.expr) && !b.name.starts_with(INTERNAL_BINDING_PREFIX)
+                    {
+                        binding.name = format!("{}{}", INTERNAL_BINDING_PREFIX, b.name);
+                    }
+                    binding
+                })
+                .collect();
+            RcExpr::from(Expr::Let(
+                *s,
+                Scope {
+                    pattern,
+                    body: rename_internal_bindings(&scope.body),
+                },
+                *let_type,
+            ))
+        }
+        Expr::Meta(s, e, m) => RcExpr::from(Expr::Meta(*s, rename_internal_bindings(e), m.clone())),
+        _ => expr.clone(),
+    }
+}
+
 /// Collect all free variable names in an expression.
 pub fn free_vars(expr: &RcExpr) -> std::collections::HashSet<String> {
     let mut result = std::collections::HashSet::new();
diff --git a/src/driver/prepare.rs b/src/driver/prepare.rs
index f5a8205..00ed846 100644
--- a/src/driver/prepare.rs
+++ b/src/driver/prepare.rs
@@ -237,6 +237,7 @@ pub fn prepare(
         let t = Instant::now();
 
         loader.cook()?;
+        loader.mark_internal_references();
 
         stats.record("cook", t.elapsed());
     }
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 18d2bb7..1d9d79e 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -873,6 +873,20 @@ impl SourceLoader {
         Ok(())
     }
 
+    /// Mark references to the internal bindings of other units, which
+    /// resolve to nothing, for the benefit of the error they will cause.
+    pub fn mark_internal_references(&mut self) {
+        #[cfg(not(target_arch = "wasm32"))]
+        let is_global = |n: &str| {
+            self.prelude_blob
+                .as_ref()
+                .is_some_and(|blob| blob.name_to_slot.contains_key(n))
+        };
+        #[cfg(target_arch = "wasm32")]
+        let is_global = |_: &str| false;
+        self.core.expr = crate::core::expr::mark_internal_references(&self.core.expr, &is_global);
+    }
+
     /// Split `LetRec` scopes into minimal `Let`/`LetRec` via SCC
     /// decomposition.
     ///
-- 
2.43.0


From bae22b851f376fa7c71c051f145e4c30519b0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 52/61] fix: an import scoped to a declaration or block brings
 its names whatever else is imported

---
 src/core/desugar/desugarer.rs | 68 ++++++++++++++---------------------
 src/core/desugar/rowan_ast.rs |  4 +--
 2 files changed, 28 insertions(+), 44 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index ffc594a..f38565a 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -108,18 +108,15 @@ pub struct Desugarer<'smap> {
     /// transitive dependency is pulled in first and a later direct import of
     /// the same file would create a duplicate.
     import_seen_nested: HashSet<(usize, Option<String>)>,
-    /// Rule 3 — alias table for same-file-different-name direct imports.
-    ///
-    /// When a file is imported directly (depth == 1) under a name for the
-    /// first time, its `(file_id → name)` is recorded here.  A subsequent
-    /// direct import of the same file under a *different* name emits an
-    /// alias binding `let { new_name = old_name }` instead of re-desugaring.
-    import_first_direct: HashMap<usize, String>,
     /// Nesting depth of named imports.  Incremented when entering a named
     /// import (`a=a.eu`), decremented on exit.  When > 0, transitive
     /// imports are "namespaced" — their bindings won't be visible at the
     /// top level, so they must not suppress later unnamed encounters.
     named_import_depth: usize,
+    /// Nesting depth of imports scoped to a declaration or block.  When > 0,
+    /// what is imported is visible in that scope only, and names in it may be
+    /// shadowed there, so the import guard plays no part.
+    scoped_import_depth: usize,
 }
 
 impl<'smap> Desugarer<'smap> {
@@ -146,7 +143,7 @@ impl<'smap> Desugarer<'smap> {
             monad_type_registry: HashMap::new(),
             import_seen_direct: HashSet::new(),
             import_seen_nested: HashSet::new(),
-            import_first_direct: HashMap::new(),
+            scoped_import_depth: 0,
             named_import_depth: 0,
         }
     }
@@ -275,12 +272,6 @@ impl<'smap> Desugarer<'smap> {
     ///   when encountered again as a nested import.  Multiple direct
     ///   imports of the same file are allowed because each may serve a
     ///   different scope position in the unit.
-    ///
-    /// **Rule 3**: when a file is imported directly a second time under a
-    /// *different* name, an alias binding is emitted instead of re-desugaring.
-    /// For example, if `lens=lens.eu` was already imported, a subsequent
-    /// `optics=lens.eu` emits `let { optics = lens }` referencing the
-    /// already-bound name.
     pub fn translate_import(
         &mut self,
         smid: Smid,
@@ -306,26 +297,12 @@ impl<'smap> Desugarer<'smap> {
             //   2+ = nested/transitive import
             let is_nested = self.file.len() > 1;
 
-            // Rule 3: if this file was already imported *directly* under a
-            // different name, emit an alias binding rather than re-desugaring.
-            // This avoids duplicating content and prevents nested imports from
-            // being incorrectly suppressed on the second pass.
-            if !is_nested {
-                if let Some(first_name) = self.import_first_direct.get(&file_id).cloned() {
-                    if let Some(new_name) = &import_name {
-                        if &first_name != new_name {
-                            let alias_rhs =
-                                RcExpr::from(Expr::Var(smid, Var::Free(first_name.clone())));
-                            return Ok(Some(alias_rhs.apply_name(smid, new_name)));
-                        }
-                    }
-                }
-            }
-
             // Suppress if already seen transitively, OR if already seen
             // directly and we're now inside a nested import.
-            if self.import_seen_nested.contains(&guard_key)
-                || (is_nested && self.import_seen_direct.contains(&guard_key))
+            let guarded = self.scoped_import_depth == 0;
+            if guarded
+                && (self.import_seen_nested.contains(&guard_key)
+                    || (is_nested && self.import_seen_direct.contains(&guard_key)))
             {
                 return Ok(None);
             }
@@ -335,18 +312,12 @@ impl<'smap> Desugarer<'smap> {
             // chain — namespaced bindings are invisible to sibling
             // importers, so recording would incorrectly suppress later
             // unnamed encounters of the same file.
-            if is_nested {
-                if self.named_import_depth == 0 {
+            if guarded {
+                if !is_nested {
+                    self.import_seen_direct.insert(guard_key);
+                } else if self.named_import_depth == 0 {
                     self.import_seen_nested.insert(guard_key);
                 }
-            } else {
-                self.import_seen_direct.insert(guard_key);
-                // Record the first direct named import for Rule 3 alias resolution.
-                if let Some(ref name) = import_name {
-                    self.import_first_direct
-                        .entry(file_id)
-                        .or_insert_with(|| name.clone());
-                }
             }
 
             self.file.push(file_id);
@@ -380,6 +351,19 @@ impl<'smap> Desugarer<'smap> {
         }
     }
 
+    /// Desugar an import that is scoped to a declaration or block: neither it
+    /// nor anything it imports is visible outside that scope.
+    pub fn translate_scoped_import(
+        &mut self,
+        smid: Smid,
+        import: Input,
+    ) -> Result<Option<RcExpr>, CoreError> {
+        self.scoped_import_depth += 1;
+        let result = self.translate_import(smid, import);
+        self.scoped_import_depth -= 1;
+        result
+    }
+
     /// Translate a chunk of parsed AST that has no imports
     pub fn translate_simple(
         &mut self,
diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index d12f090..30075cd 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2652,7 +2652,7 @@ fn rowan_declaration_to_binding(
             let import_smid = desugarer.new_smid(components.span);
             // Propagate rather than panic (eu-mqlkv): see the note on the
             // `Unit` import loop below.
-            if let Some(import_expr) = desugarer.translate_import(import_smid, input)? {
+            if let Some(import_expr) = desugarer.translate_scoped_import(import_smid, input)? {
                 imports.push(import_expr);
             }
         }
@@ -2838,7 +2838,7 @@ impl Desugarable for rowan_ast::Block {
             for input in inputs {
                 // Propagate rather than panic (eu-mqlkv): see the note on
                 // the `Unit` import loop below.
-                if let Some(import_expr) = desugarer.translate_import(meta_smid, input)? {
+                if let Some(import_expr) = desugarer.translate_scoped_import(meta_smid, input)? {
                     imports.push(import_expr);
                 }
             }
-- 
2.43.0


From e7e14f5d3ab561c899f38af42739700ffb161f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 53/61] fix: targets are selected in a fixed order and found in
 named inputs and imports

---
 src/core/desugar/desugarer.rs | 32 ++++++++++++++++++++--------
 src/core/unit.rs              | 40 +++++++++++++++++++++--------------
 src/driver/source.rs          | 10 +++++++--
 src/wasm_pipeline.rs          | 14 ++++++------
 4 files changed, 62 insertions(+), 34 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index f38565a..2ddae14 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -17,6 +17,7 @@ use crate::{
     syntax::input::*,
 };
 use codespan::Span;
+use indexmap::IndexSet;
 use std::collections::{HashMap, HashSet};
 
 /// A monad specification registered for a bracket pair or used inline in block metadata.
@@ -44,11 +45,11 @@ pub struct Desugarer<'smap> {
     /// anaphora for processing at the boundary the pattern
     pending_string_anaphora: HashMap<Anaphor<Smid, i32>, String>,
     /// Targets discovered (including those from imported files)
-    targets: HashSet<Target>,
+    targets: IndexSet<Target>,
     /// Targets that originated from imported files rather than the
     /// top-level unit being desugared.  Used to compute `own_targets`
     /// in [`Self::translate_unit`].
-    imported_targets: HashSet<Target>,
+    imported_targets: IndexSet<Target>,
     /// Doc strings discovered (path, doc)
     docs: Vec<DeclarationDocumentation>,
     /// Deprecated declarations discovered during desugaring.
@@ -128,8 +129,8 @@ impl<'smap> Desugarer<'smap> {
     ) -> Self {
         Desugarer {
             pending_string_anaphora: HashMap::new(),
-            targets: HashSet::new(),
-            imported_targets: HashSet::new(),
+            targets: IndexSet::new(),
+            imported_targets: IndexSet::new(),
             docs: Vec::new(),
             deprecations: HashMap::new(),
             blame: HashMap::new(),
@@ -233,15 +234,20 @@ impl<'smap> Desugarer<'smap> {
             // `own_targets` contains only the targets declared in this
             // file itself — targets from imported files are collected
             // separately in `self.imported_targets` by `translate_import`.
+            // Where the unit is named, targets lie under that name.
+            let place = |t: &Target| match input.name() {
+                Some(name) => t.under(name),
+                None => t.clone(),
+            };
             let own_targets = self
                 .targets
                 .difference(&self.imported_targets)
-                .cloned()
+                .map(place)
                 .collect();
 
             let unit = TranslationUnit {
                 expr,
-                targets: self.targets.clone(),
+                targets: self.targets.iter().map(place).collect(),
                 own_targets,
                 docs: self.docs.clone(),
                 deprecations: self.deprecations.clone(),
@@ -330,14 +336,22 @@ impl<'smap> Desugarer<'smap> {
 
             // Snapshot targets before desugaring the import so we can
             // identify which targets were added by the imported file.
-            let targets_before = self.targets.clone();
+            let targets_before = self.targets.len();
             let mut expr = source.content().desugar(self)?;
 
             // Any targets not present before this import are "imported" —
             // record them so `translate_unit` can exclude them from
             // `own_targets`.
-            let newly_added = self.targets.difference(&targets_before).cloned();
-            self.imported_targets.extend(newly_added);
+            // Where the import is named, they lie under that name.
+            let newly_added = self.targets.split_off(targets_before);
+            for t in newly_added {
+                let t = match import.name() {
+                    Some(name) => t.under(name),
+                    None => t,
+                };
+                self.targets.insert(t.clone());
+                self.imported_targets.insert(t);
+            }
 
             if let Some(name) = import.name() {
                 self.named_import_depth -= 1;
diff --git a/src/core/unit.rs b/src/core/unit.rs
index fea7373..4c2ddf4 100644
--- a/src/core/unit.rs
+++ b/src/core/unit.rs
@@ -6,7 +6,8 @@ use crate::core::metadata::{BlameSpec, DeprecationSpec};
 use crate::core::target::Target;
 use crate::syntax::export::embed::Embed;
 use crate::syntax::export::pretty;
-use std::collections::{HashMap, HashSet};
+use indexmap::IndexSet;
+use std::collections::HashMap;
 
 use super::expr::acore;
 
@@ -19,13 +20,14 @@ pub struct TranslationUnit {
     /// All targets discovered within the unit, including those from
     /// transitively imported files.  The full set is needed so that
     /// `eu -t target-name file.eu` can invoke targets defined in
-    /// imported files.
-    pub targets: HashSet<Target>,
+    /// imported files.  In order of discovery: where several share a
+    /// name, the last is the one it selects.
+    pub targets: IndexSet<Target>,
     /// Targets declared in the top-level file itself, excluding any
     /// targets that originated in imported files.  The test runner uses
     /// this set for auto-discovery so that imported `test-*` / `bench-*`
     /// targets are not run as part of the importing file's test suite.
-    pub own_targets: HashSet<Target>,
+    pub own_targets: IndexSet<Target>,
     /// Doc strings read from the unit
     pub docs: Vec<DeclarationDocumentation>,
     /// Deprecated declarations discovered during desugaring.
@@ -46,10 +48,22 @@ pub struct TranslationUnit {
     pub blame: HashMap<String, BlameSpec>,
 }
 
+/// Combine targets, those of the later unit last
+fn merge_targets(mut targets: IndexSet<Target>, later: IndexSet<Target>) -> IndexSet<Target> {
+    for t in later {
+        targets.shift_remove(&t);
+        targets.insert(t);
+    }
+    targets
+}
+
 impl TranslationUnit {
     /// Return the specified target if it exists
     pub fn target<T: AsRef<str>>(&self, target: T) -> Option<&Target> {
-        self.targets.iter().find(|n| n.name() == target.as_ref())
+        self.targets
+            .iter()
+            .rev()
+            .find(|n| n.name() == target.as_ref())
     }
 
     /// True if this unit has the target specified
@@ -66,12 +80,8 @@ impl TranslationUnit {
         blame.extend(other.blame);
         Ok(TranslationUnit {
             expr: self.expr.merge_in(other.expr)?,
-            targets: self.targets.union(&other.targets).cloned().collect(),
-            own_targets: self
-                .own_targets
-                .union(&other.own_targets)
-                .cloned()
-                .collect(),
+            targets: merge_targets(self.targets, other.targets),
+            own_targets: merge_targets(self.own_targets, other.own_targets),
             docs: other.docs, // don't include docs from prior inputs
             deprecations,
             blame,
@@ -99,8 +109,8 @@ impl TranslationUnit {
         I: Iterator<Item = &'a Self>,
         S: AsRef<str>,
     {
-        let mut targets = HashSet::new();
-        let mut own_targets = HashSet::new();
+        let mut targets = IndexSet::new();
+        let mut own_targets = IndexSet::new();
         let mut docs = vec![];
         let mut deprecations = HashMap::new();
         let mut blame = HashMap::new();
@@ -150,9 +160,7 @@ impl TranslationUnit {
     /// return the target's format if specified
     pub fn retarget(&self, target: &str) -> Result<Self, CoreError> {
         let path = self
-            .targets
-            .iter()
-            .find(|t| t.name() == target)
+            .target(target)
             .ok_or_else(|| CoreError::TargetNotFound(target.to_string()))?
             .path();
 
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 1d9d79e..00ec66a 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -784,8 +784,8 @@ impl SourceLoader {
             // Create a translation unit directly from the core expression
             let unit = TranslationUnit {
                 expr,
-                targets: std::collections::HashSet::new(),
-                own_targets: std::collections::HashSet::new(),
+                targets: Default::default(),
+                own_targets: Default::default(),
                 docs: Vec::new(),
                 deprecations: std::collections::HashMap::new(),
                 blame: std::collections::HashMap::new(),
@@ -1127,6 +1127,12 @@ impl SourceLoader {
         collection_unit.expr = collection_unit
             .expr
             .apply_name(Smid::default(), collection_name);
+        for targets in [
+            &mut collection_unit.targets,
+            &mut collection_unit.own_targets,
+        ] {
+            *targets = targets.iter().map(|t| t.under(collection_name)).collect();
+        }
 
         self.core = TranslationUnit::merge(
             prologue_units
diff --git a/src/wasm_pipeline.rs b/src/wasm_pipeline.rs
index 1e4334c..3aa7e02 100644
--- a/src/wasm_pipeline.rs
+++ b/src/wasm_pipeline.rs
@@ -11,7 +11,7 @@
 //! The WASM module (`wasm.rs`) exposes both as `evaluate` and `evaluate_expr`.
 
 use std::cell::RefCell;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::fmt;
 use std::io;
 use std::rc::Rc;
@@ -205,24 +205,24 @@ fn run_pipeline(source: &str, format: &str, mode: ParseMode) -> Result<String, P
     //   __args, __io, __build, prelude, user_source
     let args_unit = TranslationUnit {
         expr: create_args_pseudoblock(&[]).apply_name(Smid::default(), "__args"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
     };
     let io_unit = TranslationUnit {
         expr: create_io_pseudoblock(None).apply_name(Smid::default(), "__io"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
     };
     let build_unit = TranslationUnit {
         expr: build_meta_core.apply_name(Smid::default(), "__build"),
-        targets: HashSet::new(),
-        own_targets: HashSet::new(),
+        targets: Default::default(),
+        own_targets: Default::default(),
         docs: Vec::new(),
         deprecations: HashMap::new(),
         blame: HashMap::new(),
-- 
2.43.0


From 8c8bcf45cf35931dd057ca5a4dee24598fb351ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 54/61] fix: imports are found beside the importing file first,
 each file by its own identity, with the names in it

---
 src/core/desugar/desugarer.rs |  72 ++++++++++++----
 src/core/desugar/rowan_ast.rs |  19 ++++-
 src/driver/source.rs          | 154 +++++++++++++++++++++++-----------
 src/import/edn.rs             |  15 +++-
 src/import/toml.rs            |   2 +-
 src/syntax/import.rs          |  16 ++--
 6 files changed, 203 insertions(+), 75 deletions(-)

diff --git a/src/core/desugar/desugarer.rs b/src/core/desugar/desugarer.rs
index 2ddae14..27df430 100644
--- a/src/core/desugar/desugarer.rs
+++ b/src/core/desugar/desugarer.rs
@@ -6,7 +6,7 @@ use crate::{
         sourcemap::{Smid, SourceMap},
     },
     core::{
-        binding::Var,
+        binding::{Scope, Var},
         doc::DeclarationDocumentation,
         error::CoreError,
         expr::*,
@@ -67,6 +67,9 @@ pub struct Desugarer<'smap> {
     stack: Vec<String>,
     /// All parsed content for translation
     contents: &'smap HashMap<Input, Content<'smap>>,
+    /// Imports known under another locator than the one in the text of the
+    /// importing file, by file id and the locator in the text.
+    import_identities: Option<&'smap HashMap<(usize, Locator), Locator>>,
     /// SourceMap
     source_map: &'smap mut SourceMap,
     /// Track variable names so we mint appropriate names
@@ -120,6 +123,22 @@ pub struct Desugarer<'smap> {
     scoped_import_depth: usize,
 }
 
+/// A translated unit with the metadata of the unit left out.
+fn without_unit_metadata(unit: &RcExpr) -> RcExpr {
+    match &*unit.inner {
+        Expr::Meta(_, expr, _) => without_unit_metadata(expr),
+        Expr::Let(smid, scope, let_type) => RcExpr::from(Expr::Let(
+            *smid,
+            Scope {
+                pattern: scope.pattern.clone(),
+                body: without_unit_metadata(&scope.body),
+            },
+            *let_type,
+        )),
+        _ => unit.clone(),
+    }
+}
+
 impl<'smap> Desugarer<'smap> {
     /// Construct a Desugarer from a SourceMap and the desugarable contents
     #[allow(clippy::redundant_closure)]
@@ -136,6 +155,7 @@ impl<'smap> Desugarer<'smap> {
             blame: HashMap::new(),
             stack: vec![],
             contents,
+            import_identities: None,
             source_map,
             env: DefaultingEnvironment::new(|k: &String| k.clone()),
             file: vec![],
@@ -149,6 +169,30 @@ impl<'smap> Desugarer<'smap> {
         }
     }
 
+    /// Set the locators under which imports are known, where those are not
+    /// the ones in the text of the importing file.
+    pub fn with_import_identities(
+        mut self,
+        identities: &'smap HashMap<(usize, Locator), Locator>,
+    ) -> Self {
+        self.import_identities = Some(identities);
+        self
+    }
+
+    /// The content of an input: that registered for just this input or, where
+    /// the same content is in use under several names, for any other name.
+    ///
+    /// The import graph deduplicates by locator and format, so only the first
+    /// name is in the contents map.
+    fn content_for(&self, input: &Input) -> Option<&'smap Content<'smap>> {
+        self.contents.get(input).or_else(|| {
+            self.contents
+                .iter()
+                .find(|(k, _)| k.locator() == input.locator() && k.format() == input.format())
+                .map(|(_, v)| v)
+        })
+    }
+
     /// Register a monad spec for a bracket pair.
     ///
     /// Called when a bracket pair declaration with `bind` and `return` metadata
@@ -216,7 +260,7 @@ impl<'smap> Desugarer<'smap> {
     /// Desugar content at locator (and imports) to create a new
     /// translation unit.
     pub fn translate_unit(&mut self, input: &Input) -> Result<TranslationUnit, CoreError> {
-        if let Some(source) = self.contents.get(input) {
+        if let Some(source) = self.content_for(input) {
             self.file.push(source.file_id());
             let mut expr = source.content().desugar(self)?;
 
@@ -283,17 +327,15 @@ impl<'smap> Desugarer<'smap> {
         smid: Smid,
         import: Input,
     ) -> Result<Option<RcExpr>, CoreError> {
-        // Look up content by exact Input key, falling back to locator match.
-        // The fallback is needed when the same file is imported under multiple
-        // names (eu-v0t6): the ImportGraph deduplicates by locator, so only the
-        // first-registered Input is in the contents map.
-        let source_lookup = self.contents.get(&import).or_else(|| {
-            self.contents
-                .iter()
-                .find(|(k, _)| k.locator() == import.locator())
-                .map(|(_, v)| v)
-        });
-        if let Some(source) = source_lookup {
+        let importer = self.file.last().copied().unwrap_or_default();
+        let identity = self
+            .import_identities
+            .and_then(|ids| ids.get(&(importer, import.locator().clone())));
+        let import = match identity {
+            Some(locator) => Input::new(locator.clone(), import.name().clone(), import.format()),
+            None => import,
+        };
+        if let Some(source) = self.content_for(&import) {
             let file_id = source.file_id();
             let import_name = import.name().clone();
             let guard_key = (file_id, import_name.clone());
@@ -375,7 +417,9 @@ impl<'smap> Desugarer<'smap> {
         self.scoped_import_depth += 1;
         let result = self.translate_import(smid, import);
         self.scoped_import_depth -= 1;
-        result
+        // The unit's metadata describes the imported unit, not the
+        // declaration or block that imports it.
+        result.map(|import| import.map(|expr| without_unit_metadata(&expr)))
     }
 
     /// Translate a chunk of parsed AST that has no imports
diff --git a/src/core/desugar/rowan_ast.rs b/src/core/desugar/rowan_ast.rs
index 30075cd..e574f4f 100644
--- a/src/core/desugar/rowan_ast.rs
+++ b/src/core/desugar/rowan_ast.rs
@@ -2766,6 +2766,11 @@ fn rowan_declaration_to_binding(
         );
     }
 
+    // Embed in imports if required: inside the operator and the metadata,
+    // which say what is being declared
+    let embed = |expr: RcExpr| imports.iter().rfold(expr, |acc, import| import.rebody(acc));
+    expr = embed(expr);
+
     // Wrap in operator if this is an operator declaration
     if components.is_operator {
         expr = RcExpr::from(Expr::Operator(
@@ -2783,6 +2788,17 @@ fn rowan_declaration_to_binding(
     if let Some(m) = core_meta {
         let stripped_meta = strip_desugar_phase_metadata(&m);
         if !matches!(&*stripped_meta.inner, Expr::ErrEliminated) {
+            // Metadata values may use imported names too
+            let stripped_meta = match &*stripped_meta.inner {
+                Expr::Block(s, entries) if !imports.is_empty() => {
+                    let entries = entries.iter().map(|(k, v)| match &*v.inner {
+                        Expr::Literal(_, _) => (k.clone(), v.clone()),
+                        _ => (k.clone(), embed(v.clone())),
+                    });
+                    RcExpr::from(Expr::Block(*s, entries.collect()))
+                }
+                _ => stripped_meta,
+            };
             expr = RcExpr::from(Expr::Meta(
                 desugarer.new_smid(components.span),
                 expr,
@@ -2798,9 +2814,6 @@ fn rowan_declaration_to_binding(
         .expect("declaration var should have been prepared in block")
         .clone();
 
-    // Embed in imports if required
-    expr = imports.iter().rfold(expr, |acc, import| import.rebody(acc));
-
     let ret = (declared_var, expr);
 
     // Note: Don't pop the environment here - it's shared across all declarations
diff --git a/src/driver/source.rs b/src/driver/source.rs
index 00ec66a..2dd1182 100644
--- a/src/driver/source.rs
+++ b/src/driver/source.rs
@@ -148,6 +148,15 @@ pub struct SourceLoader {
     source_map: SourceMap,
     /// Paths to search for FS resources
     lib_path: Vec<PathBuf>,
+    /// How many of those, at the front, are directories of importing files.
+    import_dirs: usize,
+    /// The file each filesystem locator was found to refer to. A relative
+    /// path may refer to different files in different importing directories,
+    /// see [`Self::identify_import`].
+    fs_files: HashMap<PathBuf, PathBuf>,
+    /// Imports known under another locator than the one in the text of the
+    /// importing file, by file id and the locator in the text.
+    import_identities: HashMap<(usize, Locator), Locator>,
     /// Command-line arguments passed after -- separator (for __ARGS)
     args: Vec<String>,
     /// Seed for random number generation
@@ -213,6 +222,9 @@ impl Default for SourceLoader {
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
             lib_path: Vec::new(),
+            import_dirs: 0,
+            fs_files: HashMap::new(),
+            import_identities: HashMap::new(),
             args: Vec::new(),
             seed: None,
             deterministic_io: false,
@@ -244,6 +256,9 @@ impl SourceLoader {
             core: TranslationUnit::default(),
             source_map: SourceMap::new(),
             lib_path,
+            import_dirs: 0,
+            fs_files: HashMap::new(),
+            import_identities: HashMap::new(),
             args: Vec::new(),
             seed: None,
             deterministic_io: false,
@@ -309,34 +324,8 @@ impl SourceLoader {
             return self.load_from_git(&url, &commit, &path, name, &format, alias_locator);
         }
 
-        // A plain relative filesystem import encountered while loading the
-        // transitive imports of a git-fetched file (`current_git_context` is
-        // set by `load_tree` for the duration) must itself be fetched from
-        // the same repository/commit — the cache only ever contains the
-        // individual files explicitly requested, not a full working copy of
-        // the repository, so ordinary filesystem resolution would either
-        // fail outright or (worse) silently pick up an unrelated same-named
-        // file from the local lib path.
-        #[cfg(not(target_arch = "wasm32"))]
         if let Locator::Fs(path) = input.locator() {
-            if path.is_relative() {
-                if let Some(ctx) = self.current_git_context.clone() {
-                    let repo_path = ctx.repo_dir.join(path);
-                    // Git paths always use forward slashes regardless of host OS.
-                    let repo_path = repo_path.to_string_lossy().replace('\\', "/");
-                    let name = input.name().clone();
-                    let format = input.format().to_string();
-                    let alias_locator = input.locator().clone();
-                    return self.load_from_git(
-                        &ctx.url,
-                        &ctx.commit,
-                        &repo_path,
-                        name,
-                        &format,
-                        alias_locator,
-                    );
-                }
-            }
+            self.note_fs_file(path);
         }
 
         let fmt = input.format();
@@ -503,16 +492,11 @@ impl SourceLoader {
     ) -> Result<usize, EucalyptError> {
         let file_id = self.load_eucalypt(content_locator)?;
 
-        // Implement import analysis for Rowan AST
-        let ast = self.asts.get(&file_id).expect("AST was just loaded");
-        let inputs = self.imports.analyse_rowan_ast(graph_input.clone(), ast)?;
-        self.imports.check_for_cycles()?;
-
         // If this file was itself fetched from a git repository, set up its
         // `GitContext` for the duration of loading its transitive imports —
-        // `load()` consults `current_git_context` to redirect plain
-        // relative `Locator::Fs` imports to the git cache instead of the
-        // local filesystem. Saved and restored exactly like the `lib_path`
+        // `identify_import()` consults `current_git_context` to redirect
+        // plain relative `Locator::Fs` imports to the git cache instead of
+        // the local filesystem. Saved and restored exactly like the `lib_path`
         // push/pop below. (`driver::source` is excluded entirely from
         // wasm32 builds — see `driver::mod` — so no wasm32 fallback is
         // needed here.)
@@ -528,28 +512,99 @@ impl SourceLoader {
         // Resolve imports relative to the importing file's directory.
         //
         // When a file at `dir/foo.eu` imports `sub/bar.eu`, the path
-        // `sub/bar.eu` should be resolved relative to `dir/` in addition
-        // to the global lib_path. We achieve this by temporarily extending
-        // the lib_path with the importing file's directory whilst loading
+        // `sub/bar.eu` is resolved relative to `dir/` first and then in the
+        // global lib_path. We achieve this by temporarily putting the
+        // importing file's directory in front of the lib_path whilst loading
         // its transitive imports.
         let import_dir = self.find_source_dir(content_locator);
+        let saved_lib_path = self.lib_path.clone();
+        let saved_import_dirs = self.import_dirs;
         if let Some(dir) = import_dir {
-            self.lib_path.push(dir);
-            for import_input in inputs {
-                self.load(&import_input)?;
-            }
-            self.lib_path.pop();
-        } else {
-            for import_input in inputs {
-                self.load(&import_input)?;
-            }
+            self.lib_path.insert(0, dir);
+            self.import_dirs += 1;
         }
 
+        // Implement import analysis for Rowan AST
+        let ast = self.asts.get(&file_id).expect("AST was just loaded");
+        let declared = ImportGraph::scrape_rowan_ast_imports(ast)?;
+        let identified = declared
+            .into_iter()
+            .map(|import| self.identify_import(file_id, import))
+            .collect();
+        let inputs = self
+            .imports
+            .register_imports(graph_input.clone(), identified)?;
+        self.imports.check_for_cycles()?;
+
+        for import_input in inputs {
+            self.load(&import_input)?;
+        }
+
+        self.lib_path = saved_lib_path;
+        self.import_dirs = saved_import_dirs;
         self.current_git_context = saved_git_context;
 
         Ok(file_id)
     }
 
+    /// The input to register for an import in the file `importer`.
+    ///
+    /// An import's identity is its locator and, as a rule, that is the path
+    /// just as it is written. But the same relative path refers to different
+    /// files when imported from different directories, so a path that
+    /// already refers to another file is known by its absolute path instead.
+    fn identify_import(&mut self, importer: usize, import: Input) -> Input {
+        let path = match import.locator() {
+            Locator::Fs(path) => path.clone(),
+            _ => return import,
+        };
+        let identity = match (&self.current_git_context, path.is_relative()) {
+            // A plain relative import in a git-fetched file must itself be
+            // fetched from the same repository and commit — the cache only
+            // ever contains the individual files explicitly requested, not a
+            // full working copy of the repository, so ordinary filesystem
+            // resolution would either fail outright or (worse) silently pick
+            // up an unrelated same-named file from the local lib path.
+            (Some(ctx), true) => Locator::Git {
+                url: ctx.url.clone(),
+                commit: ctx.commit.clone(),
+                // Git paths always use forward slashes regardless of host OS.
+                path: ctx.repo_dir.join(&path).to_string_lossy().replace('\\', "/"),
+            },
+            _ => match self.note_fs_file(&path) {
+                Some(file) if self.fs_files[&path] != file => Locator::Fs(file),
+                _ => return import,
+            },
+        };
+        self.import_identities
+            .insert((importer, import.locator().clone()), identity.clone());
+        Input::new(identity, import.name().clone(), import.format())
+    }
+
+    /// Find the file that a filesystem path refers to at present, noting it
+    /// if the path is new.
+    ///
+    /// What the path refers to outside any importing file comes first, as it
+    /// may be given as an input too.
+    fn note_fs_file(&mut self, path: &Path) -> Option<PathBuf> {
+        let find = |dirs: &[PathBuf]| {
+            dirs.iter()
+                .map(|dir| dir.join(path))
+                .chain(std::iter::once(path.to_path_buf()))
+                .find(|candidate| candidate.is_file())
+                .map(|found| found.canonicalize().unwrap_or(found))
+        };
+        let file = find(&self.lib_path)?;
+        if !self.fs_files.contains_key(path) {
+            let at_large = find(&self.lib_path[self.import_dirs..]);
+            self.fs_files.insert(
+                path.to_path_buf(),
+                at_large.unwrap_or_else(|| file.clone()),
+            );
+        }
+        Some(file)
+    }
+
     /// Find the directory containing the source file identified by `locator`,
     /// searching the lib_path. Returns `None` for non-filesystem locators.
     fn find_source_dir(&self, locator: &Locator) -> Option<PathBuf> {
@@ -800,7 +855,7 @@ impl SourceLoader {
 
         for input in inputs {
             if let Some(file_id) = self.locators.get(input.locator()) {
-                if let Some(ast) = self.asts.get(file_id) {
+                if let (Some(ast), "eu") = (self.asts.get(file_id), input.format()) {
                     desugarables.insert(input.clone(), Content::new(*file_id, ast));
                 } else if let Some(core_expr) = self.cores.get(input) {
                     // Include core expressions (from non-eucalypt file formats) in desugarables
@@ -812,7 +867,8 @@ impl SourceLoader {
         // Desugar all the content starting from the input specified.
         // Seed the desugarer with the persisted monad namespace registry
         // so that `-e` expressions see `monad: true` from the prelude.
-        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map);
+        let mut desugarer = Desugarer::new(&desugarables, &mut self.source_map)
+            .with_import_identities(&self.import_identities);
         self.unit_interface
             .seed_desugarer_monad_registries(&mut desugarer);
         let unit = desugarer.translate_unit(input)?;
diff --git a/src/import/edn.rs b/src/import/edn.rs
index df1f390..987aecb 100644
--- a/src/import/edn.rs
+++ b/src/import/edn.rs
@@ -1,6 +1,6 @@
 //! EDN import
 
-use std::iter;
+use std::{collections::HashSet, iter};
 
 use super::error::SourceError;
 use crate::{
@@ -63,6 +63,17 @@ fn value_to_key(edn: &Value, file_id: usize) -> Result<String, SourceError> {
     }
 }
 
+/// A block whose keys are also names in scope for whatever imports it, unless
+/// different EDN keys have the same name.
+fn named_block(bindings: Vec<(String, RcExpr)>) -> RcExpr {
+    let distinct: HashSet<&String> = bindings.iter().map(|(k, _)| k).collect();
+    if distinct.len() == bindings.len() {
+        acore::default_let(bindings)
+    } else {
+        acore::block(bindings)
+    }
+}
+
 fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr, SourceError> {
     match edn {
         Value::Nil => Ok(acore::null()),
@@ -115,7 +126,7 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
                 }
             })
             .collect::<Result<Vec<(String, RcExpr)>, SourceError>>()
-            .map(acore::block),
+            .map(named_block),
         Value::Set(xs) => xs
             .iter()
             .map(|v| value_to_core(v, file_id, data_only))
diff --git a/src/import/toml.rs b/src/import/toml.rs
index b7f635d..982a952 100644
--- a/src/import/toml.rs
+++ b/src/import/toml.rs
@@ -59,6 +59,6 @@ fn to_core(value: &Value, file_id: usize, data_only: bool) -> Result<RcExpr, Sou
             .iter()
             .map(|(k, v)| to_core(v, file_id, data_only).map(|expr| (k.clone(), expr)))
             .collect::<Result<Vec<(String, RcExpr)>, SourceError>>()
-            .map(acore::block),
+            .map(acore::default_let),
     }
 }
diff --git a/src/syntax/import.rs b/src/syntax/import.rs
index 4f08d77..33eb0be 100644
--- a/src/syntax/import.rs
+++ b/src/syntax/import.rs
@@ -101,19 +101,23 @@ impl ImportGraph {
         }
     }
 
-    /// Find the node index for the specified input by locator identity.
+    /// Find the node index for the specified input by locator and format.
     ///
-    /// Two inputs with the same locator (file path / URL) but different names
-    /// are treated as the same graph node — the locator is the stable identity
-    /// after resolution.
+    /// Two inputs with the same locator (file path / URL) and format but
+    /// different names are treated as the same graph node — the locator is the
+    /// stable identity after resolution. Read in another format, the same file
+    /// has other content.
     fn find_index(&self, input: &Input) -> Option<NodeIndex> {
         self.graph
             .node_indices()
-            .find(|&i| self.graph[i].locator() == input.locator())
+            .find(|&i| {
+                self.graph[i].locator() == input.locator()
+                    && self.graph[i].format() == input.format()
+            })
     }
 
     /// Add an input to the graph if it isn't already there and return
-    /// the node index.  Deduplication is by locator, so `lens=lens.eu`
+    /// the node index.  Deduplication is by locator and format, so `lens=lens.eu`
     /// and `optics=lens.eu` resolve to the same node.
     fn encounter_input(&mut self, input: Input) -> NodeIndex {
         match self.find_index(&input) {
-- 
2.43.0


From f6f4be9dde33685964db009527dccdabe44af9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:47 +0000
Subject: [PATCH 55/61] fix: cond keeps the metadata of its default

---
 src/eval/stg/boolean.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/boolean.rs b/src/eval/stg/boolean.rs
index 4bad5a1..5acd1a7 100644
--- a/src/eval/stg/boolean.rs
+++ b/src/eval/stg/boolean.rs
@@ -232,8 +232,10 @@ impl StgIntrinsic for Cond {
                                 ),
                             )],
                             // Fallback: head is not a Clause — treat as default.
-                            // At this point local(0)=head, local(1)=tail (from ListCons).
-                            local(0),
+                            // The fallback binds the scrutinee, stripped of
+                            // its metadata, at local(0), so the head itself
+                            // (from ListCons) is local(1).
+                            local(1),
                         ),
                     ),
                 ],
-- 
2.43.0


From 853d3294f0d63c51d52e27dba9be07cb9d28e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 56/61] fix: parse-args keeps the whole value after = and takes
 a lone - as an argument

---
 lib/prelude.eu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 012f4a3..87aef5e 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -2363,7 +2363,7 @@ parse-args(defaults, args): {
     has-eq: name str.contains?("=")
     key-str: (has-eq) then(name str.split-on("=") first, name)
     key: key-str sym
-    val: name str.split-on("=") second
+    val: name str.replace("^[^=]*=", "")
 
     eq-opts: has-eq then(state set-opt(key, coerce-value(defs, key, val)), null)
     flag-opts: is-flag(defs, key) then(state set-opt(key, true), null)
@@ -2394,7 +2394,7 @@ parse-args(defaults, args): {
     cond([state.pending✓ => state resolve-pending(defs, arg)
          , arg = "--help" => panic(generate-help(defs))
          , arg str.starts-with?("--") => arg process-long(defs, state)
-         , arg str.starts-with?("-") => arg str.replace("^-", "") str.letters process-short-chars(defs, sl, state)
+         , (arg str.starts-with?("-")) ∧ (arg ≠ "-") => arg str.replace("^-", "") str.letters process-short-chars(defs, sl, state)
          , { opts: state.opts, rest: state.rest ++ [arg], pending: null }])
 
 
-- 
2.43.0


From 486e7e43a402c77067e63356654a878454d79132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 57/61] fix: eu fmt reports output it cannot write instead of
 panicking

---
 src/driver/format.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/driver/format.rs b/src/driver/format.rs
index d81bc89..e3783c6 100644
--- a/src/driver/format.rs
+++ b/src/driver/format.rs
@@ -3,7 +3,7 @@
 use crate::driver::options::EucalyptOptions;
 use crate::syntax::export::format::{format_source, needs_formatting, FormatterConfig};
 use std::fs;
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::Path;
 
 /// Run the format command
@@ -86,12 +86,26 @@ fn format_file(
         }
     } else {
         // Output to stdout
-        print!("{}", formatted);
+        write_output(&formatted)?;
     }
 
     Ok(0)
 }
 
+/// Write formatted text to standard output
+///
+/// A reader that has stopped listening is no failure, any other write
+/// error is.
+fn write_output(text: &str) -> Result<(), String> {
+    let mut out = io::stdout().lock();
+    match out.write_all(text.as_bytes()).and_then(|()| out.flush()) {
+        Err(e) if e.kind() != io::ErrorKind::BrokenPipe => {
+            Err(format!("Failed to write output: {e}"))
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Format from stdin
 fn format_stdin(config: &FormatterConfig, opt: &EucalyptOptions) -> Result<i32, String> {
     let mut source = String::new();
@@ -109,7 +123,7 @@ fn format_stdin(config: &FormatterConfig, opt: &EucalyptOptions) -> Result<i32,
     }
 
     let formatted = format_source(&source, config)?;
-    print!("{}", formatted);
+    write_output(&formatted)?;
 
     Ok(0)
 }
-- 
2.43.0


From 6f809f8f92e1082bb37b7d533c534dbe6de60a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:11 +0000
Subject: [PATCH 58/61] fix: eu test runs every file given, reports an empty
 directory and takes titles with quotes

---
 src/driver/tester.rs | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/driver/tester.rs b/src/driver/tester.rs
index 00ebf5b..567da28 100644
--- a/src/driver/tester.rs
+++ b/src/driver/tester.rs
@@ -19,16 +19,28 @@ use super::statistics::{Statistics, Timings};
 /// Main entry point for `eu -T` - analyse for test plan, execute and report
 pub fn test(opt: &EucalyptOptions) -> Result<i32, EucalyptError> {
     let cwd = Input::from(Locator::Fs(PathBuf::from(".")));
-    let input = opt.explicit_inputs().last().unwrap_or(&cwd);
-    let path = resolve_input(opt, input)?;
     let run_id = Uuid::new_v4().hyphenated().to_string();
 
-    let plans = if path.is_dir() {
-        directory_plans(opt, &run_id, &path)?
-    } else {
-        vec![load_plan(opt, &run_id, &path)?]
+    let inputs = match opt.explicit_inputs() {
+        [] => std::slice::from_ref(&cwd),
+        given => given,
     };
 
+    // Every file given is a test subject of its own
+    let mut plans = vec![];
+    for input in inputs {
+        let path = resolve_input(opt, input)?;
+        if path.is_dir() {
+            plans.extend(directory_plans(opt, &run_id, &path)?);
+        } else {
+            let subject_opts = opt
+                .clone()
+                .with_explicit_inputs(vec![input.clone()])
+                .build();
+            plans.push(load_plan(&subject_opts, &run_id, &path)?);
+        }
+    }
+
     run_plans(opt, plans.as_slice())
 }
 
@@ -154,6 +166,11 @@ fn load_plan(
 
 /// Run the specified plans and generate report
 pub fn run_plans(opt: &EucalyptOptions, tests: &[TestPlan]) -> Result<i32, EucalyptError> {
+    if tests.is_empty() {
+        eprintln!("no tests found");
+        return Ok(1);
+    }
+
     let tester = InProcessTester {};
     let mut exit: i32 = 0;
 
@@ -291,15 +308,19 @@ pub struct InProcessTester {}
 
 /// Quote a string for embedding in eu source code.
 ///
-/// Escapes double quotes and curly braces (which would otherwise
-/// trigger string interpolation).
+/// A plain string has no escapes, so this is a C-string, with backslashes,
+/// double quotes, line breaks and curly braces (which would otherwise trigger
+/// string interpolation) escaped.
 fn quote<T: AsRef<str>>(text: T) -> String {
     let escaped = text
         .as_ref()
-        .replace('{', "{{")
-        .replace('}', "}}")
+        .replace('\\', "\\\\")
+        .replace('{', "\\{")
+        .replace('}', "\\}")
+        .replace('\n', "\\n")
+        .replace('\r', "\\r")
         .replace('\"', "\\\"");
-    format!("\"{escaped}\"")
+    format!("c\"{escaped}\"")
 }
 
 /// Convert stats to a core expression for output
-- 
2.43.0


From 33b18318872651d16b6ab57e586d2b14dddd65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 59/61] fix: eu test judges eu-format output by what it says
 instead of reading it as metadata

---
 src/driver/tester.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/driver/tester.rs b/src/driver/tester.rs
index 567da28..1c6ced2 100644
--- a/src/driver/tester.rs
+++ b/src/driver/tester.rs
@@ -369,6 +369,9 @@ impl InProcessTester {
                 Some(format!("{}-{}-result", target_name, format)),
                 format.clone(),
             );
+            // Output in eu format is an expression; read as a unit it would be
+            // taken for the unit's metadata
+            let reads_as_expression = output.format() == "eu";
             // Literal stdout
             let stdout = Input::new(
                 Locator::Literal(result.stdout.clone()),
@@ -424,13 +427,19 @@ impl InProcessTester {
                 result.exit_code.unwrap_or(1),
                 stdout.name().as_ref().expect("stdout temp file has a name"),
                 stderr.name().as_ref().expect("stderr temp file has a name"),
-                if result.exit_code.is_some() {
+                if result.exit_code.is_none() {
+                    "{ RESULT: :FAIL }".to_string()
+                } else if reads_as_expression {
+                    if result.stdout.trim().is_empty() {
+                        "null".to_string()
+                    } else {
+                        format!("({})", result.stdout.trim())
+                    }
+                } else {
                     format!(
                         "'{}'",
                         output.name().as_ref().expect("output temp file has a name")
                     )
-                } else {
-                    "{ RESULT: :FAIL }".to_string()
                 },
                 expectations.as_slice().join(","),
                 stats_to_eu(&result.statistics)
@@ -439,7 +448,7 @@ impl InProcessTester {
             // Gather all the outputs together
             inputs.push(stdout);
             inputs.push(stderr);
-            if result.exit_code.is_some() {
+            if result.exit_code.is_some() && !reads_as_expression {
                 inputs.push(output);
             }
 
-- 
2.43.0


From c43687bad9d7f28c0f8aedaa28187bc6c89d2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 60/61] fix: streams keep the order of keys and columns, and
 text streams strip one line ending only

---
 src/eval/stg/json_to_stg.rs | 23 +++++++++++++++++++----
 src/import/stream.rs        | 22 ++++++++++++----------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/eval/stg/json_to_stg.rs b/src/eval/stg/json_to_stg.rs
index e244c36..7b1dedc 100644
--- a/src/eval/stg/json_to_stg.rs
+++ b/src/eval/stg/json_to_stg.rs
@@ -1,18 +1,33 @@
-//! Convert serde_json::Value to STG syntax
+//! Convert JSON values to STG syntax
 //!
 //! Used by stream producers to convert JSON values into STG syntax
 //! that can be loaded directly into the VM heap.
 
 use std::rc::Rc;
 
-use serde_json::Value;
+use indexmap::IndexMap;
+use serde::Deserialize;
 
 use super::syntax::{
     dsl::{self, block, cons, letrec_, local, lref, nil, pair, unit, value},
     LambdaForm, StgSyn,
 };
 
-/// Convert a serde_json Value to STG syntax.
+/// A JSON value whose objects keep their keys in source order.
+///
+/// (`serde_json::Value` sorts them unless built with `preserve_order`.)
+#[derive(Debug, Deserialize)]
+#[serde(untagged)]
+pub enum Value {
+    Null,
+    Bool(bool),
+    Number(serde_json::Number),
+    String(String),
+    Array(Vec<Value>),
+    Object(IndexMap<String, Value>),
+}
+
+/// Convert a JSON value to STG syntax.
 pub fn json_to_stg(val: &Value) -> Rc<StgSyn> {
     match val {
         Value::Null => unit(),
@@ -43,7 +58,7 @@ fn json_array_to_stg(items: &[Value]) -> Rc<StgSyn> {
 }
 
 /// Convert a JSON object to an STG block.
-fn json_object_to_stg(map: &serde_json::Map<String, Value>) -> Rc<StgSyn> {
+fn json_object_to_stg(map: &IndexMap<String, Value>) -> Rc<StgSyn> {
     if map.is_empty() {
         // Empty block: BLOCK(NIL, no-index)
         let bindings: Vec<LambdaForm> = vec![value(nil()), value(block(lref(0)))];
diff --git a/src/import/stream.rs b/src/import/stream.rs
index c9d9847..20a6332 100644
--- a/src/import/stream.rs
+++ b/src/import/stream.rs
@@ -8,9 +8,11 @@ use std::fs::File;
 use std::io::{BufRead, BufReader};
 use std::rc::Rc;
 
+use indexmap::IndexMap;
+
 use crate::common::sourcemap::Smid;
 use crate::eval::error::ExecutionError;
-use crate::eval::stg::json_to_stg::json_to_stg;
+use crate::eval::stg::json_to_stg::{json_to_stg, Value};
 use crate::eval::stg::stream::LazyProducer;
 use crate::eval::stg::syntax::dsl;
 use crate::eval::stg::syntax::StgSyn;
@@ -46,7 +48,7 @@ impl LazyProducer for JsonlProducer {
                     }
                     return Some(
                         serde_json::from_str(trimmed)
-                            .map(|v: serde_json::Value| json_to_stg(&v))
+                            .map(|v: Value| json_to_stg(&v))
                             .map_err(|e| {
                                 ExecutionError::Panic(
                                     Smid::default(),
@@ -102,14 +104,11 @@ impl LazyProducer for CsvProducer {
         };
 
         // Build a JSON object from headers + values, then convert to STG
-        let mut map = serde_json::Map::new();
+        let mut map = IndexMap::new();
         for (header, value) in self.headers.iter().zip(record.iter()) {
-            map.insert(
-                header.to_string(),
-                serde_json::Value::String(value.to_string()),
-            );
+            map.insert(header.to_string(), Value::String(value.to_string()));
         }
-        Some(Ok(json_to_stg(&serde_json::Value::Object(map))))
+        Some(Ok(json_to_stg(&Value::Object(map))))
     }
 
     /// Impure: owns an open file descriptor whose offset is shared with
@@ -147,8 +146,11 @@ impl LazyProducer for TextProducer {
         match self.reader.read_line(&mut self.line_buf) {
             Ok(0) => None, // EOF
             Ok(_) => {
-                // Strip trailing newline
-                let line = self.line_buf.trim_end_matches('\n').trim_end_matches('\r');
+                // Strip the line ending (and only that)
+                let line = match self.line_buf.strip_suffix('\n') {
+                    Some(line) => line.strip_suffix('\r').unwrap_or(line),
+                    None => &self.line_buf,
+                };
                 Some(Ok(dsl::box_str(line)))
             }
             Err(e) => Some(Err(ExecutionError::Io(e))),
-- 
2.43.0


From 971a48ed996079c3ff926aedd7d59a2d816c4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 61/61] fix: a stream imported under two names or in two scopes
 gives each all of its records

---
 src/eval/stg/stream.rs           | 54 +++++++++++++++++++++++++++++++-
 src/eval/stg/stream_intrinsic.rs |  8 ++++-
 src/import/stream.rs             | 27 +++++++++++++++-
 3 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/src/eval/stg/stream.rs b/src/eval/stg/stream.rs
index b0d4fb5..bd68052 100644
--- a/src/eval/stg/stream.rs
+++ b/src/eval/stg/stream.rs
@@ -5,7 +5,7 @@
 //! via the `PRODUCER_NEXT` intrinsic.
 
 use std::cell::{Cell, RefCell};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 use crate::common::sourcemap::Smid;
@@ -40,6 +40,14 @@ pub trait LazyProducer {
     /// Deliberately has no default: every producer must state its purity, so
     /// that a new one cannot silently inherit the wrong answer.
     fn is_pure(&self) -> bool;
+
+    /// Open the same source again from its beginning, if it can be.
+    ///
+    /// Used when a stream is started more than once (imported under two
+    /// names or in two scopes), so that each gets all of the records.
+    fn reopen(&self) -> Option<std::io::Result<Box<dyn LazyProducer>>> {
+        None
+    }
 }
 
 /// A reference-counted, interiorly-mutable producer handle.
@@ -51,6 +59,10 @@ pub type ProducerHandle = Rc<RefCell<Box<dyn LazyProducer>>>;
 /// by the `PRODUCER_NEXT` intrinsic.
 pub struct ProducerTable {
     handles: HashMap<u32, ProducerHandle>,
+    /// The first pass over each registered producer, once started
+    started: HashMap<u32, u32>,
+    /// Handles which stand for a pass already under way
+    passes: HashSet<u32>,
     next_id: u32,
 }
 
@@ -58,6 +70,8 @@ impl Default for ProducerTable {
     fn default() -> Self {
         ProducerTable {
             handles: HashMap::new(),
+            started: HashMap::new(),
+            passes: HashSet::new(),
             next_id: 1,
         }
     }
@@ -72,6 +86,37 @@ impl ProducerTable {
         id
     }
 
+    /// The handle of the pass that `handle` starts or continues.
+    ///
+    /// A registered handle starts a pass: the first over the producer as
+    /// registered, each later one over its source opened again, so that
+    /// separate uses of one import do not take each other's records. The
+    /// handle of a pass continues it. A source that cannot be opened again
+    /// has just the one pass.
+    pub fn pass(&mut self, handle: u32) -> std::io::Result<u32> {
+        if self.passes.contains(&handle) {
+            return Ok(handle);
+        }
+        let Some(producer) = self.handles.get(&handle).cloned() else {
+            return Ok(handle);
+        };
+        let pass = match self.started.get(&handle) {
+            None => {
+                let pass = self.next_id;
+                self.next_id += 1;
+                self.handles.insert(pass, producer);
+                self.started.insert(handle, pass);
+                pass
+            }
+            Some(&first) => match producer.borrow().reopen() {
+                Some(reopened) => self.register(reopened?),
+                None => first,
+            },
+        };
+        self.passes.insert(pass);
+        Ok(pass)
+    }
+
     /// Look up a producer by handle ID.
     pub fn get(&self, handle: u32) -> Option<&ProducerHandle> {
         self.handles.get(&handle)
@@ -155,6 +200,13 @@ pub fn producer_drain(handle: u32) -> Result<Vec<Rc<StgSyn>>, ExecutionError> {
     })
 }
 
+/// The handle of the pass that `handle` starts or continues.
+pub fn producer_pass(handle: u32) -> Result<u32, ExecutionError> {
+    PRODUCER_TABLE
+        .with(|table| table.borrow_mut().pass(handle))
+        .map_err(ExecutionError::Io)
+}
+
 /// Advance a producer by a single step.
 ///
 /// Returns:
diff --git a/src/eval/stg/stream_intrinsic.rs b/src/eval/stg/stream_intrinsic.rs
index 1b2edd2..3bfa0f4 100644
--- a/src/eval/stg/stream_intrinsic.rs
+++ b/src/eval/stg/stream_intrinsic.rs
@@ -15,7 +15,10 @@ use crate::{
 };
 
 use super::{
-    materialise::materialise_data, stream::producer_next, support::num_arg, tags::DataConstructor,
+    materialise::materialise_data,
+    stream::{producer_next, producer_pass},
+    support::num_arg,
+    tags::DataConstructor,
 };
 
 /// PRODUCER_NEXT(handle)
@@ -58,6 +61,9 @@ impl StgIntrinsic for ProducerNext {
             )
         })? as u32;
 
+        // The head of a stream starts a pass over it, the tail continues it
+        let handle = producer_pass(handle)?;
+
         // Advance the producer by one element
         let value_stg = match producer_next(handle) {
             Some(Ok(v)) => v,
diff --git a/src/import/stream.rs b/src/import/stream.rs
index 20a6332..c76f59a 100644
--- a/src/import/stream.rs
+++ b/src/import/stream.rs
@@ -20,6 +20,7 @@ use crate::eval::stg::syntax::StgSyn;
 /// Streams JSON Lines (JSONL) files, yielding one parsed JSON value
 /// per line.
 pub struct JsonlProducer {
+    path: String,
     reader: BufReader<File>,
     line_buf: String,
 }
@@ -29,6 +30,7 @@ impl JsonlProducer {
     pub fn open(path: &str) -> std::io::Result<Self> {
         let file = File::open(path)?;
         Ok(JsonlProducer {
+            path: path.to_string(),
             reader: BufReader::new(file),
             line_buf: String::new(),
         })
@@ -68,10 +70,15 @@ impl LazyProducer for JsonlProducer {
     fn is_pure(&self) -> bool {
         false
     }
+
+    fn reopen(&self) -> Option<std::io::Result<Box<dyn LazyProducer>>> {
+        Some(Self::open(&self.path).map(|p| Box::new(p) as Box<dyn LazyProducer>))
+    }
 }
 
 /// Streams CSV files, yielding one block per row with column-name keys.
 pub struct CsvProducer {
+    path: String,
     reader: csv::Reader<File>,
     headers: csv::StringRecord,
 }
@@ -86,7 +93,11 @@ impl CsvProducer {
             .headers()
             .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?
             .clone();
-        Ok(CsvProducer { reader, headers })
+        Ok(CsvProducer {
+            path: path.to_string(),
+            reader,
+            headers,
+        })
     }
 }
 
@@ -117,10 +128,15 @@ impl LazyProducer for CsvProducer {
     fn is_pure(&self) -> bool {
         false
     }
+
+    fn reopen(&self) -> Option<std::io::Result<Box<dyn LazyProducer>>> {
+        Some(Self::open(&self.path).map(|p| Box::new(p) as Box<dyn LazyProducer>))
+    }
 }
 
 /// Streams text files line by line, yielding one string per line.
 pub struct TextProducer {
+    path: String,
     reader: BufReader<Box<dyn std::io::Read>>,
     line_buf: String,
 }
@@ -134,6 +150,7 @@ impl TextProducer {
             Box::new(File::open(path)?)
         };
         Ok(TextProducer {
+            path: path.to_string(),
             reader: BufReader::new(reader),
             line_buf: String::new(),
         })
@@ -163,4 +180,12 @@ impl LazyProducer for TextProducer {
     fn is_pure(&self) -> bool {
         false
     }
+
+    fn reopen(&self) -> Option<std::io::Result<Box<dyn LazyProducer>>> {
+        // Standard input can be read once only
+        if self.path == "-" {
+            return None;
+        }
+        Some(Self::open(&self.path).map(|p| Box::new(p) as Box<dyn LazyProducer>))
+    }
 }
-- 
2.43.0

