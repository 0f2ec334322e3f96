From 1008bce58860ba70535b03a6ec5eb8c16e3f1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 01/52] fix: $ne selects the documents whose field differs from
 the operand

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From af0b8aaccc25058152a67e7eac1fb50e0c9d935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 02/52] fix: \$regex tests string values, not the printed form
 of any value

---
 src/polodb_core/vm/query_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..e097602 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,7 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    Ok(matches_compiled_regex(field_value, &regex))
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From 0f4ec713ebe27edc322831d24e919d7b694d806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 03/52] fix: \$size skips values which are not arrays and
 leaves the stack balanced

---
 src/polodb_core/vm/codegen.rs |  4 +++-
 src/polodb_core/vm/vm.rs      | 15 +++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..8a49113 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -788,6 +788,7 @@ impl Codegen {
             "$size" => {
                 let expected_size = match sub_value {
                     Bson::Int64(i) => *i,
+                    Bson::Int32(i) => i64::from(*i),
                     _ => {
                         return Err(Error::InvalidField(mk_invalid_query_field(
                             self.last_key().into(),
@@ -807,7 +808,8 @@ impl Codegen {
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                // the field, its size and the expected size
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..9bdba4e 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -315,10 +315,13 @@ impl VM {
         Ok(())
     }
 
-    fn array_size(&mut self) -> Result<usize> {
-        let top = self.stack.len() - 1;
-        let doc = crate::try_unwrap_array!("ArraySize", &self.stack[top]);
-        Ok(doc.len())
+    /// The size of the array on the top of the stack.
+    /// A value which is not an array has no size.
+    fn array_size(&self) -> Bson {
+        match self.stack_top() {
+            Bson::Array(array) => Bson::from(array.len() as i64),
+            _ => Bson::Null,
+        }
     }
 
     fn array_push(&mut self) -> Result<()> {
@@ -716,9 +719,9 @@ impl VM {
                     }
 
                     DbOp::ArraySize => {
-                        let size = try_vm!(self, self.array_size());
+                        let size = self.array_size();
 
-                        self.stack.push(Bson::from(size as i64));
+                        self.stack.push(size);
 
                         self.pc = self.pc.add(1);
                     }
-- 
2.43.0


From 01b4fb1474cd0c2969983d5ffae92e9327891231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 04/52] fix: comparison operators and sorting use one total
 order of values

---
 src/polodb_core/utils/bson.rs | 126 ++++++++++++++++++++++------------
 src/polodb_core/vm/vm.rs      |   2 +-
 2 files changed, 82 insertions(+), 46 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..9958129 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -18,7 +18,6 @@ use bson::{Bson, DateTime, Decimal128, Document, Timestamp};
 use bson::oid::ObjectId;
 use bson::spec::ElementType;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
-use bson::ser::Error as BsonErr;
 use bson::ser::Result as BsonResult;
 use crate::{Error, Result};
 
@@ -174,53 +173,90 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     Ok(result)
 }
 
-pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
-    match (a, b) {
-        (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
-        (Bson::Undefined, Bson::Undefined) => Ok(Ordering::Equal),
-        (Bson::DateTime(d1), Bson::DateTime(d2)) => Ok(d1.cmp(d2)),
-        (Bson::Boolean(b1), Bson::Boolean(b2)) => Ok(b1.cmp(b2)),
-        (Bson::Int64(i1), Bson::Int64(i2)) => Ok(i1.cmp(i2)),
-        (Bson::Int32(i1), Bson::Int32(i2)) => Ok(i1.cmp(i2)),
-        (Bson::Int64(i1), Bson::Int32(i2)) => {
-            let i2_64 = *i2 as i64;
-            Ok(i1.cmp(&i2_64))
-        },
-        (Bson::Int32(i1), Bson::Int64(i2)) => {
-            let i1_64 = *i1 as i64;
-            Ok(i1_64.cmp(i2))
-        },
-        (Bson::Double(d1), Bson::Double(d2)) => Ok(d1.total_cmp(d2)),
-        (Bson::Double(d1), Bson::Int32(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Double(d1), Bson::Int64(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Int32(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
-        (Bson::Int64(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
+fn int_double_cmp(i: i64, d: f64) -> Ordering {
+    // both bounds are exact in f64
+    if d.is_nan() {
+        return 0f64.total_cmp(&d);
+    }
+    if d >= 9_223_372_036_854_775_808.0 {
+        return Ordering::Less;
+    }
+    if d < -9_223_372_036_854_775_808.0 {
+        return Ordering::Greater;
+    }
+    let truncated = d.trunc();
+    i.cmp(&(truncated as i64))
+        .then_with(|| 0f64.partial_cmp(&(d - truncated)).unwrap_or(Ordering::Equal))
+}
+
+fn double_cmp(d1: f64, d2: f64) -> Ordering {
+    d1.partial_cmp(&d2).unwrap_or_else(|| d1.total_cmp(&d2))
+}
+
+/// Values of different types are ordered by their types, and all the
+/// numeric types are ordered together, otherwise the order is not transitive.
+fn type_order(value: &Bson) -> u8 {
+    match value {
+        Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => ElementType::Int32 as u8,
+        _ => value.element_type() as u8,
+    }
+}
+
+fn array_cmp(a: &[Bson], b: &[Bson]) -> BsonResult<Ordering> {
+    for (v1, v2) in a.iter().zip(b) {
+        let ord = value_cmp(v1, v2)?;
+        if ord != Ordering::Equal {
+            return Ok(ord);
         }
-        (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
-        (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
-        (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
-        _ => {
-            // compare the numeric type
-            let a_type = a.element_type() as u8;
-            let b_type = b.element_type() as u8;
-            if a_type != b_type {
-                return Ok(a_type.cmp(&b_type));
-            }
+    }
+    Ok(a.len().cmp(&b.len()))
+}
 
-            Err(BsonErr::InvalidCString("Unsupported types".to_string()))
-        },
+fn document_cmp(a: &Document, b: &Document) -> BsonResult<Ordering> {
+    for ((k1, v1), (k2, v2)) in a.iter().zip(b) {
+        let ord = k1.cmp(k2).then(value_cmp(v1, v2)?);
+        if ord != Ordering::Equal {
+            return Ok(ord);
+        }
     }
+    Ok(a.len().cmp(&b.len()))
+}
+
+/// A total order of all the values
+pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
+    let ord = match (a, b) {
+        (Bson::DateTime(d1), Bson::DateTime(d2)) => d1.cmp(d2),
+        (Bson::Boolean(b1), Bson::Boolean(b2)) => b1.cmp(b2),
+        (Bson::Int64(i1), Bson::Int64(i2)) => i1.cmp(i2),
+        (Bson::Int32(i1), Bson::Int32(i2)) => i1.cmp(i2),
+        (Bson::Int64(i1), Bson::Int32(i2)) => i1.cmp(&i64::from(*i2)),
+        (Bson::Int32(i1), Bson::Int64(i2)) => i64::from(*i1).cmp(i2),
+        (Bson::Double(d1), Bson::Double(d2)) => double_cmp(*d1, *d2),
+        (Bson::Double(d1), Bson::Int32(i2)) => int_double_cmp(i64::from(*i2), *d1).reverse(),
+        (Bson::Double(d1), Bson::Int64(i2)) => int_double_cmp(*i2, *d1).reverse(),
+        (Bson::Int32(i1), Bson::Double(d2)) => int_double_cmp(i64::from(*i1), *d2),
+        (Bson::Int64(i1), Bson::Double(d2)) => int_double_cmp(*i1, *d2),
+        (Bson::Binary(b1), Bson::Binary(b2)) => b1.bytes.cmp(&b2.bytes),
+        (Bson::String(str1), Bson::String(str2)) => str1.cmp(str2),
+        (Bson::Symbol(str1), Bson::Symbol(str2)) => str1.cmp(str2),
+        (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => oid1.cmp(oid2),
+        (Bson::Timestamp(t1), Bson::Timestamp(t2)) => {
+            (t1.time, t1.increment).cmp(&(t2.time, t2.increment))
+        }
+        (Bson::Decimal128(d1), Bson::Decimal128(d2)) => d1.bytes().cmp(&d2.bytes()),
+        (Bson::RegularExpression(r1), Bson::RegularExpression(r2)) => {
+            (&r1.pattern, &r1.options).cmp(&(&r2.pattern, &r2.options))
+        }
+        (Bson::JavaScriptCode(c1), Bson::JavaScriptCode(c2)) => c1.cmp(c2),
+        (Bson::JavaScriptCodeWithScope(c1), Bson::JavaScriptCodeWithScope(c2)) => {
+            c1.code.cmp(&c2.code).then(document_cmp(&c1.scope, &c2.scope)?)
+        }
+        (Bson::Array(a1), Bson::Array(a2)) => array_cmp(a1, a2)?,
+        (Bson::Document(d1), Bson::Document(d2)) => document_cmp(d1, d2)?,
+        (Bson::DbPointer(p1), Bson::DbPointer(p2)) => format!("{:?}", p1).cmp(&format!("{:?}", p2)),
+        _ => type_order(a).cmp(&type_order(b)),
+    };
+    Ok(ord)
 }
 
 pub fn try_get_document_value(doc: &Document, key: &str) -> Option<Bson> {
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 9bdba4e..a8d12b3 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -662,7 +662,7 @@ impl VM {
                             }
                         };
 
-                        match crate::utils::bson::try_get_document_value(doc, key_name) {
+                        match field_path_value(doc, key_name) {
                             Some(val) => {
                                 self.r0 = 1;
                                 self.stack.push(val);
-- 
2.43.0


From eec72271a8de15de3d4a76211d96308ad745dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 05/52] fix: conditions after \$or are tested too, and empty
 conditions are rejected

---
 src/polodb_core/vm/codegen.rs | 93 +++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 8a49113..bea3897 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -296,7 +296,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, result_label, compare_fun_clean, true)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -437,20 +437,24 @@ impl Codegen {
         Ok(())
     }
 
+    /// is_tail: nothing has to be tested after this document,
+    /// so its result in r0 is the result of the whole function.
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if query_doc.is_empty() {
             self.emit(DbOp::StoreR0_2);
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        for (index, (key, value)) in query_doc.iter().enumerate() {
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                let is_tail = is_tail && index + 1 == query_doc.len();
+                self.emit_query_tuple(key, value, result_label, not_found_label, is_tail)?;
             });
         }
 
@@ -468,6 +472,17 @@ impl Codegen {
         result
     }
 
+    /// `$and`, `$or` and a document of operators need something to test
+    fn check_not_empty(&self, is_empty: bool) -> Result<()> {
+        if is_empty {
+            return Err(Error::InvalidField(mk_invalid_query_field(
+                self.last_key().into(),
+                self.gen_path(),
+            )));
+        }
+        Ok(())
+    }
+
     #[inline]
     fn last_key(&self) -> &str {
         self.paths.last().unwrap().as_str()
@@ -478,46 +493,76 @@ impl Codegen {
         arr: &Array,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         for (index, item_doc_value) in arr.iter().enumerate() {
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                let is_tail = is_tail && index + 1 == arr.len();
+                self.emit_standard_query_doc(item_doc, result_label, not_found_label, is_tail)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    fn emit_logic_or(&mut self, arr: &Array, not_found_label: Label, is_tail: bool) -> Result<()> {
+        self.emit_any_of(arr.len(), not_found_label, is_tail, |codegen, index, ret_label| {
+            let path_msg = format!("[{}]", index);
+            crate::path_hint!(codegen, path_msg, {
+                let item_doc = crate::try_unwrap_document!("$or", &arr[index]);
+                codegen.emit_standard_query_doc(item_doc, ret_label, ret_label, true)?;
+            });
+            Ok(())
+        })
+    }
+
+    /// Emit the alternatives as functions, and continue if one of them returns true.
+    fn emit_any_of<F>(
+        &mut self,
+        size: usize,
+        not_found_label: Label,
+        is_tail: bool,
+        mut emit_alternative: F,
+    ) -> Result<()>
+    where
+        F: FnMut(&mut Codegen, usize, Label) -> Result<()>,
+    {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
         let mut functions = Vec::<Label>::new();
-        for (index, item_doc_value) in arr.iter().enumerate() {
-            let path_msg = format!("[{}]", index);
-            crate::path_hint!(self, path_msg, {
-                let item_doc = crate::try_unwrap_document!("$or", item_doc_value);
-
-                let query_label = self.new_label();
-                let ret_label = self.new_label();
+        for index in 0..size {
+            let query_label = self.new_label();
+            let ret_label = self.new_label();
 
-                self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+            self.emit_label(query_label);
+            emit_alternative(self, index, ret_label)?;
 
-                self.emit_label(ret_label);
-                self.emit_ret(0);
+            self.emit_label(ret_label);
+            self.emit_ret(0);
 
-                functions.push(query_label);
-            });
+            functions.push(query_label);
         }
 
+        // in the tail position, r0 is the result whatever is jumped to
+        let matched_label = if is_tail {
+            not_found_label
+        } else {
+            self.new_label()
+        };
+
         self.emit_label(cmp_label);
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, matched_label);
+        }
+
+        if !is_tail {
+            self.emit_goto(DbOp::Goto, not_found_label);
+            self.emit_label(matched_label);
         }
 
         Ok(())
@@ -531,17 +576,20 @@ impl Codegen {
         value: &Bson,
         result_label: Label,
         not_found_label: Label,
+        is_tail: bool,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.check_not_empty(sub_arr.is_empty())?;
+                    self.emit_logic_and(sub_arr, result_label, not_found_label, is_tail)?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.check_not_empty(sub_arr.is_empty())?;
+                    self.emit_logic_or(sub_arr, not_found_label, is_tail)?;
                 }
 
                 _ => {
@@ -554,6 +602,7 @@ impl Codegen {
         } else {
             match value {
                 Bson::Document(doc) => {
+                    self.check_not_empty(doc.is_empty())?;
                     return self.emit_query_tuple_document(key, doc, false, not_found_label);
                 }
 
@@ -848,6 +897,8 @@ impl Codegen {
                     }
                 };
 
+                self.check_not_empty(doc.is_empty())?;
+
                 crate::path_hint!(self, "$not".to_string(), {
                     self.emit_query_tuple_document(key, doc, !is_in_not, not_found_label)?;
                 });
-- 
2.43.0


From 2dd76f1bfb1af3d1cecef4a2e645326b9d667390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 06/52] fix: \$not of several operators negates their
 conjunction

---
 src/polodb_core/vm/codegen.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index bea3897..93ff8f0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -922,6 +922,21 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if is_in_not && value.len() > 1 {
+            // not (A and B) is (not A) or (not B)
+            let tuples: Vec<(&String, &Bson)> = value.iter().collect();
+            let emit_alternative = |codegen: &mut Codegen, index: usize, ret_label: Label| {
+                let (sub_key, sub_value) = tuples[index];
+                crate::path_hint!(codegen, sub_key.clone(), {
+                    codegen.emit_query_tuple_document_kv(
+                        key, is_in_not, ret_label, sub_key, sub_value,
+                    )?;
+                });
+                Ok(())
+            };
+            return self.emit_any_of(tuples.len(), not_found_label, false, emit_alternative);
+        }
+
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
-- 
2.43.0


From 4aeeae7abe1808bd80125ad178217690e6bd72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 07/52] fix: a query on _id applies every other condition and
 finishes its aggregation

---
 src/polodb_core/vm/codegen.rs | 42 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 93ff8f0..1588450 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -53,6 +53,8 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -167,6 +169,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: &mut Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -183,6 +186,9 @@ impl Codegen {
 
         self.emit_label(close_label);
         self.emit(DbOp::Pop);
+        if let Some(before_close) = before_close.take() {
+            before_close(self)?;
+        }
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
@@ -192,18 +198,9 @@ impl Codegen {
                 continue;
             }
 
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
-
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+            crate::path_hint!(self, key.clone(), {
+                self.emit_query_tuple(key, value, result_label, close_label, false)?;
+            });
         }
 
         result_callback(self)?;
@@ -218,20 +215,20 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        mut before_close: Option<BeforeClose>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
+        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback, &mut before_close)?;
         if try_pkey_result.is_none() {
             return Ok(());
         }
 
         let result_callback: F = try_pkey_result.unwrap();
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
+        let try_index_result = self.try_query_by_index(col_spec, query, result_callback, &mut before_close)?;
         if try_index_result.is_none() {
             return Ok(());
         }
@@ -309,6 +306,7 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
+        before_close: &mut Option<BeforeClose>,
     ) -> Result<Option<F>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -316,7 +314,12 @@ impl Codegen {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
@@ -329,6 +332,7 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
+        before_close: &mut Option<BeforeClose>,
     ) -> Result<Option<F>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -355,6 +359,7 @@ impl Codegen {
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
@@ -371,6 +376,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: &mut Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -411,6 +417,10 @@ impl Codegen {
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
+        if let Some(before_close) = before_close.take() {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
 
-- 
2.43.0


From 441fbde0a58fcf440ed349e980d0578c2d8616c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 08/52] fix: a query on an index returns every entry which
 satisfies the whole query

---
 src/polodb_core/vm/codegen.rs    |  15 +++-
 src/polodb_core/vm/subprogram.rs |   2 +
 src/polodb_core/vm/vm.rs         | 132 +++++++++++++++++++++----------
 3 files changed, 106 insertions(+), 43 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 1588450..423d02e 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -53,6 +53,10 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+fn is_plain_equality(key: &str, value: &Bson) -> bool {
+    !key.starts_with('$') && !matches!(value, Bson::Document(_) | Bson::Array(_))
+}
+
 type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
 
 pub(super) struct Codegen {
@@ -349,10 +353,15 @@ impl Codegen {
             // { "a.b.c": 1 }
             let test_result = query.get(key);
             if let Some(query_doc) = test_result {
-                if query_doc.element_type() != ElementType::EmbeddedDocument {
+                if crate::utils::bson::stacked_key([query_doc]).is_ok() {
                     let mut remain_query = query.clone();
                     remain_query.remove(key);
 
+                    // the entries of the index are filtered by equalities only
+                    if !remain_query.iter().all(|(k, v)| is_plain_equality(k, v)) {
+                        continue;
+                    }
+
                     self.indeed_emit_query_by_index(
                         col_spec._id.as_str(),
                         index_name.as_str(),
@@ -390,6 +399,10 @@ impl Codegen {
             crate::utils::bson::stacked_key(buf)?
         };
 
+        // the entries which don't satisfy the remaining query
+        // are skipped while walking on the index
+        self.program.index_remain_query = remain_query.clone();
+
         self.emit_open(Bson::Binary(Binary {
             subtype: BinarySubtype::Generic,
             bytes: prefix_bytes,
diff --git a/src/polodb_core/vm/subprogram.rs b/src/polodb_core/vm/subprogram.rs
index 3aae2b7..d39b949 100644
--- a/src/polodb_core/vm/subprogram.rs
+++ b/src/polodb_core/vm/subprogram.rs
@@ -40,6 +40,7 @@ pub(crate) struct SubProgram {
     pub(super) global_variables: Vec<GlobalVariableSlot>,
     pub(super) label_slots: Vec<LabelSlot>,
     pub(super) index_infos: Vec<SubProgramIndexItem>,
+    pub(super) index_remain_query: Document,
     pub(crate) external_funcs: Vec<Box<dyn VmExternalFunc>>,
     pub(crate) update_operators: Vec<Box<dyn UpdateOperator>>,
 }
@@ -52,6 +53,7 @@ impl SubProgram {
             global_variables: Vec::with_capacity(16),
             label_slots: Vec::with_capacity(32),
             index_infos: Vec::new(),
+            index_remain_query: Document::new(),
             external_funcs: Vec::new(),
             update_operators: Vec::new(),
         }
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index a8d12b3..8b864f7 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -76,9 +76,46 @@ pub(crate) struct VM {
     pub(crate) program: SubProgram,
     global_vars: Vec<Bson>,
     index_value: Option<Bson>,
+    index_candidates: Vec<Bson>, // the values of the index to visit after index_value
     metrics: Metrics,
 }
 
+/// The numbers equal to the value have different keys in an index if their types are different.
+fn equal_values(value: &Bson) -> Vec<Bson> {
+    let mut result = vec![value.clone()];
+
+    if matches!(value, Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_)) {
+        let integer = match value {
+            Bson::Int32(i) => *i as i64,
+            Bson::Int64(i) => *i,
+            Bson::Double(d) => *d as i64,
+            _ => unreachable!(),
+        };
+        let double = integer as f64;
+        let candidates = [
+            Bson::Int32(integer as i32),
+            Bson::Int64(integer),
+            Bson::Double(double),
+            Bson::Double(-0.0),
+        ];
+        for candidate in candidates {
+            let is_equal = matches!(generic_cmp(DbOp::Equal, value, &candidate), Ok(true));
+            if is_equal && !result.iter().any(|v| is_same_key(v, &candidate)) {
+                result.push(candidate);
+            }
+        }
+    }
+
+    result
+}
+
+fn is_same_key(a: &Bson, b: &Bson) -> bool {
+    match (a, b) {
+        (Bson::Double(d1), Bson::Double(d2)) => d1.to_bits() == d2.to_bits(),
+        _ => a == b,
+    }
+}
+
 unsafe impl Send for VM {}
 unsafe impl Sync for VM {}
 
@@ -106,6 +143,7 @@ impl VM {
             program,
             global_vars,
             index_value: None,
+            index_candidates: Vec::new(),
             metrics,
         }
     }
@@ -180,26 +218,64 @@ impl VM {
         // let col_name = self.stack[stack_len - 1].as_str().expect("col_name must be string").to_string();
         let query_value = &self.stack[stack_len - 2];
 
-        let cursor = self.r1.as_mut().unwrap();
-        let result = cursor.reset_by_index_value(query_value)?;
-        self.index_value = Some(query_value.clone());
+        self.index_value = None;
+        self.index_candidates = equal_values(query_value);
 
-        if !result {
-            return Ok(false);
+        let found = self.move_to_index_value()?;
+        if found {
+            self.metrics.add_find_by_index_count();
         }
 
-        let key = cursor.peek_key().expect("key must exist");
-
-        let index_value = self.read_index_value_by_index_key(key.as_ref())?;
+        Ok(found)
+    }
 
-        if index_value.is_none() {
-            return Ok(false);
-        }
+    /// Move to the next entry of the index whose document satisfies
+    /// the remaining query, and push the document on the stack.
+    fn move_to_index_value(&mut self) -> Result<bool> {
+        loop {
+            let cursor = self.r1.as_mut().unwrap();
+            let found = match &self.index_value {
+                Some(value) => {
+                    cursor.next()?;
+                    let prefix =
+                        make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), value)?;
+                    cursor
+                        .peek_key()
+                        .is_some_and(|key| key.starts_with(prefix.as_slice()))
+                }
+                None => {
+                    if self.index_candidates.is_empty() {
+                        return Ok(false);
+                    }
+                    let value = self.index_candidates.remove(0);
+                    let found = cursor.reset_by_index_value(&value)?;
+                    self.index_value = Some(value);
+                    found
+                }
+            };
 
-        self.stack.push(index_value.unwrap());
+            if !found {
+                self.index_value = None;
+                continue;
+            }
 
-        self.metrics.add_find_by_index_count();
+            let key = cursor.peek_key().expect("key must exist");
+            if let Some(Bson::Document(doc)) = self.read_index_value_by_index_key(key.as_ref())? {
+                if self.satisfy_index_remain_query(&doc)? {
+                    self.stack.push(Bson::Document(doc));
+                    return Ok(true);
+                }
+            }
+        }
+    }
 
+    fn satisfy_index_remain_query(&self, doc: &Document) -> Result<bool> {
+        for (key, value) in &self.program.index_remain_query {
+            match field_path_value(doc, key) {
+                Some(field) if generic_cmp(DbOp::Equal, &field, value)? => (),
+                _ => return Ok(false),
+            }
+        }
         Ok(true)
     }
 
@@ -255,35 +331,7 @@ impl VM {
     }
 
     fn next_index_value(&mut self) -> Result<()> {
-        let cursor = self.r1.as_mut().unwrap();
-        cursor.next()?;
-        let current_key = cursor.peek_key();
-        if current_key.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let index_value = self.index_value.as_ref().expect("index_value must exist");
-
-        let key_buffer =
-            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
-
-        let current_key = current_key.unwrap();
-        if !current_key.starts_with(key_buffer.as_slice()) {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        let value_opt = self.read_index_value_by_index_key(current_key.as_ref())?;
-        if value_opt.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
-
-        self.stack.push(value_opt.unwrap());
-
-        self.r0 = 1;
-
+        self.r0 = i32::from(self.move_to_index_value()?);
         Ok(())
     }
 
-- 
2.43.0


From 42335f5afb7de5e059e6318888a909e19216b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 09/52] fix: an update is stored when any of its operators
 changed the document

---
 src/polodb_core/vm/vm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 8b864f7..6222101 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -1006,7 +1006,9 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 289c06f95ea069ec2da89fe9426921eab7f31809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 10/52] fix: $inc and $mul widen or report an overflow, and
 $mul of a missing field is zero

---
 .../vm/update_operators/inc_operator.rs       | 17 +++++++++---
 .../vm/update_operators/mul_operator.rs       | 26 ++++++++++++++-----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..b936676 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -18,11 +18,20 @@ impl IncOperator {
 
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_add(*b) {
+                Some(val) => Bson::Int32(val),
+                None => Bson::Int64(*a as i64 + *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(
+                (*a as i64).checked_add(*b).ok_or(Error::DataOverflow)?
+            ),
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(
+                a.checked_add(*b).ok_or(Error::DataOverflow)?
+            ),
+            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(
+                a.checked_add(*b as i64).ok_or(Error::DataOverflow)?
+            ),
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..310c05d 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -18,11 +18,20 @@ impl MulOperator {
 
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_mul(*b) {
+                Some(val) => Bson::Int32(val),
+                None => Bson::Int64(*a as i64 * *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(
+                (*a as i64).checked_mul(*b).ok_or(Error::DataOverflow)?
+            ),
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(
+                a.checked_mul(*b).ok_or(Error::DataOverflow)?
+            ),
+            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(
+                a.checked_mul(*b as i64).ok_or(Error::DataOverflow)?
+            ),
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
@@ -49,7 +58,12 @@ impl MulOperator {
             }
 
             None => {
-                doc.insert::<String, Bson>(key.into(), value);
+                // the product of a missing field is zero
+                let zero = match value {
+                    Bson::Double(_) => Bson::Double(0.0),
+                    _ => MulOperator::mul_numeric(key, &Bson::Int32(0), &value)?,
+                };
+                doc.insert::<String, Bson>(key.into(), zero);
             }
         }
         Ok(())
-- 
2.43.0


From bb689d466c810123bcf080221d49e94064ef82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 11/52] fix: $min, $max, $rename and $pop handle missing
 fields, no operator touches _id, $pop 1 removes the last element

---
 .../vm/update_operators/max_operator.rs       |  6 +++--
 .../vm/update_operators/min_operator.rs       |  6 +++--
 .../vm/update_operators/pop_operator.rs       |  9 ++++----
 .../vm/update_operators/rename_operator.rs    | 22 +++++++++++--------
 .../vm/update_operators/unset_operator.rs     |  1 +
 5 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/max_operator.rs b/src/polodb_core/vm/update_operators/max_operator.rs
index f831a50..4539ba4 100644
--- a/src/polodb_core/vm/update_operators/max_operator.rs
+++ b/src/polodb_core/vm/update_operators/max_operator.rs
@@ -28,8 +28,10 @@ impl UpdateOperator for MaxOperator {
 
         let mut updated = false;
         for (k, v) in self.doc.iter() {
-            let current_val = doc.get(k).unwrap_or(&Bson::Null);
-            let cmp = generic_cmp(DbOp::Greater, v, current_val)?;
+            let cmp = match doc.get(k) {
+                Some(current_val) => generic_cmp(DbOp::Greater, v, current_val)?,
+                None => true,
+            };
             if cmp {
                 doc.insert(k.clone(), v.clone());
                 updated = true;
diff --git a/src/polodb_core/vm/update_operators/min_operator.rs b/src/polodb_core/vm/update_operators/min_operator.rs
index b619914..bdb65ee 100644
--- a/src/polodb_core/vm/update_operators/min_operator.rs
+++ b/src/polodb_core/vm/update_operators/min_operator.rs
@@ -28,8 +28,10 @@ impl UpdateOperator for MinOperator {
 
         let mut updated = false;
         for (k, v) in self.doc.iter() {
-            let current_val = doc.get(k).unwrap_or(&Bson::Null);
-            let cmp = generic_cmp(DbOp::Less, v, current_val)?;
+            let cmp = match doc.get(k) {
+                Some(current_val) => generic_cmp(DbOp::Less, v, current_val)?,
+                None => true,
+            };
             if cmp {
                 doc.insert(k.clone(), v.clone());
                 updated = true;
diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..03056c0 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
@@ -24,8 +25,8 @@ impl PopOperator {
                 }
             };
             let val = match num {
-                -1 => false,
-                1 => true,
+                -1 => true,
+                1 => false,
                 _ => {
                     return Err(Error::InvalidField(mk_invalid_query_field(
                         name,
@@ -66,9 +67,7 @@ impl UpdateOperator for PopOperator {
                     }
                     Bson::Array(arr)
                 }
-                Bson::Null => {
-                    Bson::Array(Vec::new())
-                }
+                Bson::Null => continue,
                 _ => {
                     return Err(Error::InvalidField(mk_invalid_query_field(
                         self.name().to_string(),
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..7cb492c 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::FieldTypeUnexpectedStruct;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct RenameOperator {
     doc: Document
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,23 +24,25 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
         })
     }
 
-    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> Result<()> {
+    // a missing field is left alone
+    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> bool {
         match doc.remove(key) {
             Some(value) => {
                 doc.insert(new_key, value);
+                true
             }
 
-            None => {
-                doc.insert(new_key, Bson::Null);
-            }
+            None => false,
         }
-        Ok(())
     }
 
 }
@@ -59,8 +62,9 @@ impl UpdateOperator for RenameOperator {
                 Bson::String(new_name) => new_name.as_str(),
                 _ => unreachable!()
             };
-            RenameOperator::rename_field(doc, k, new_name)?;
-            updated = true;
+            if RenameOperator::rename_field(doc, k, new_name) {
+                updated = true;
+            }
         }
 
         Ok(UpdateResult {
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From bddf547f3c68d66044dc52132377f847a85c7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 12/52] fix: a cursor keeps its transaction alive, reports its
 end and its read errors

---
 src/polodb_core/cursor.rs                 |   7 ++
 src/polodb_core/db/rocksdb_iterator.rs    | 100 ++++++++++++++++------
 src/polodb_core/db/rocksdb_transaction.rs |  24 ++++--
 src/polodb_core/errors.rs                 |   2 +
 src/polodb_core/index/index_helper.rs     |   1 +
 src/polodb_core/vm/vm.rs                  |   1 +
 6 files changed, 102 insertions(+), 33 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 21f690e..cebe158 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -64,6 +64,8 @@ impl Cursor {
 
         if self.kv_cursor.valid() {
             self.current_key = Some(self.kv_cursor.copy_key_arc()?);
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(())
@@ -100,6 +102,8 @@ impl Cursor {
             if let Some(found) = &self.current_key {
                 return Ok(found.as_ref().cmp(key_buffer) == Ordering::Equal);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -119,6 +123,8 @@ impl Cursor {
                 let starts_with = found.as_ref().starts_with(key_buffer.as_slice());
                 return Ok(starts_with);
             }
+        } else {
+            self.kv_cursor.error()?;
         }
 
         Ok(false)
@@ -146,6 +152,7 @@ impl Cursor {
     pub fn next(&mut self) -> Result<()> {
         self.kv_cursor.next();
         if !self.kv_cursor.valid() {
+            self.kv_cursor.error()?;
             self.current_key = None;
             return Ok(());
         }
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..4d516f9 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::ptr::null_mut;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, MutexGuard};
 use std::sync::atomic::Ordering;
 use libc::c_char;
 use crate::db::rocksdb_transaction::RocksDBTransactionInner;
@@ -26,7 +26,7 @@ pub(crate) struct RocksDBIterator {
 }
 
 impl RocksDBIterator {
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIterator {
+    pub(crate) fn new(txn_inner: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIterator {
         let inner = RocksDBIteratorInner::new(txn_inner);
         RocksDBIterator {
             inner: Arc::new(inner),
@@ -72,9 +72,13 @@ impl RocksDBIterator {
     }
 }
 
+/// The iterator reads the pending writes of the transaction, they must
+/// neither be freed nor changed while it does: it keeps the transaction
+/// alive, locks it for each operation and stops when it has ended.
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
-    txn_inner: *mut RocksDBTransactionInner,
+    txn: Arc<Mutex<RocksDBTransactionInner>>,
+    epoch: u64,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -82,50 +86,85 @@ unsafe impl Sync for RocksDBIteratorInner {}
 
 impl RocksDBIteratorInner {
 
-    pub(crate) fn new(txn_inner: *mut RocksDBTransactionInner) -> RocksDBIteratorInner {
-        unsafe {
-            let txn_ptr = (*txn_inner).inner;
-            let read_options = &(*txn_inner).read_options;
-            let iter = ffi::rocksdb_transaction_create_iterator(txn_ptr, read_options.get());
-            _ = (*txn_inner).iter_count.fetch_add(1, Ordering::SeqCst);
-            RocksDBIteratorInner {
-                inner: iter,
-                txn_inner,
-            }
+    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIteratorInner {
+        let (inner, epoch) = {
+            let txn_inner = txn.lock().unwrap();
+            let inner = unsafe {
+                ffi::rocksdb_transaction_create_iterator(
+                    txn_inner.inner,
+                    txn_inner.read_options.get(),
+                )
+            };
+            _ = txn_inner.iter_count.fetch_add(1, Ordering::SeqCst);
+            (inner, txn_inner.epoch())
+        };
+        RocksDBIteratorInner {
+            inner,
+            txn,
+            epoch,
+        }
+    }
+
+    fn lock(&self) -> Option<MutexGuard<'_, RocksDBTransactionInner>> {
+        let guard = self.txn.lock().unwrap();
+        if guard.epoch() == self.epoch {
+            Some(guard)
+        } else {
+            None
         }
     }
 
+    fn lock_or_err(&self) -> Result<MutexGuard<'_, RocksDBTransactionInner>> {
+        self.lock().ok_or(crate::Error::TransactionEnded)
+    }
+
     pub fn seek_to_first(&self) {
-        unsafe {
-            ffi::rocksdb_iter_seek_to_first(self.inner);
+        if let Some(_guard) = self.lock() {
+            unsafe {
+                ffi::rocksdb_iter_seek_to_first(self.inner);
+            }
         }
     }
 
     pub fn seek(&self, key: &[u8]) {
-        unsafe {
-            ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+        if let Some(_guard) = self.lock() {
+            unsafe {
+                ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
+            }
         }
     }
 
     pub fn valid(&self) -> bool {
-        unsafe {
-            ffi::rocksdb_iter_valid(self.inner) != 0
+        match self.lock() {
+            Some(_guard) => unsafe { ffi::rocksdb_iter_valid(self.inner) != 0 },
+            None => false,
         }
     }
 
     pub fn next(&self) {
-        unsafe {
-            ffi::rocksdb_iter_next(self.inner);
+        if let Some(_guard) = self.lock() {
+            unsafe {
+                if ffi::rocksdb_iter_valid(self.inner) != 0 {
+                    ffi::rocksdb_iter_next(self.inner);
+                }
+            }
         }
     }
 
     pub fn prev(&self) {
-        unsafe {
-            ffi::rocksdb_iter_prev(self.inner);
+        if let Some(_guard) = self.lock() {
+            unsafe {
+                ffi::rocksdb_iter_prev(self.inner);
+            }
         }
     }
 
     pub fn error(&self) -> Result<()> {
+        let guard = self.lock_or_err()?;
+        self.error_locked(&guard)
+    }
+
+    fn error_locked(&self, _guard: &RocksDBTransactionInner) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
@@ -143,7 +182,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_key(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let guard = self.lock_or_err()?;
+        self.error_locked(&guard)?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -153,7 +193,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_key_arc(&self) -> Result<Arc<[u8]>> {
-        self.error()?;
+        let guard = self.lock_or_err()?;
+        self.error_locked(&guard)?;
         unsafe {
             let mut len: usize = 0;
             let key = ffi::rocksdb_iter_key(self.inner, &mut len);
@@ -163,7 +204,8 @@ impl RocksDBIteratorInner {
     }
 
     pub fn copy_data(&self) -> Result<Vec<u8>> {
-        self.error()?;
+        let guard = self.lock_or_err()?;
+        self.error_locked(&guard)?;
         unsafe {
             let mut len: usize = 0;
             let data = ffi::rocksdb_iter_value(self.inner, &mut len);
@@ -176,9 +218,13 @@ impl RocksDBIteratorInner {
 
 impl Drop for RocksDBIteratorInner {
     fn drop(&mut self) {
+        let txn_inner = match self.txn.lock() {
+            Ok(guard) => guard,
+            Err(err) => err.into_inner(),
+        };
         unsafe {
             ffi::rocksdb_iter_destroy(self.inner);
-            _ = (*self.txn_inner).iter_count.fetch_sub(1, Ordering::SeqCst);
         }
+        _ = txn_inner.iter_count.fetch_sub(1, Ordering::SeqCst);
     }
 }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..d129bb4 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::ops::DerefMut;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::{Arc, Mutex};
@@ -53,8 +52,7 @@ impl RocksDBTransaction {
     }
 
     pub fn new_iterator(&self) -> RocksDBIterator {
-        let mut inner = self.inner.lock().unwrap();
-        RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner)
+        RocksDBIterator::new(self.inner.clone())
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
@@ -92,6 +90,7 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
+    epoch: AtomicU64,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -120,10 +119,21 @@ impl RocksDBTransactionInner {
                 inner,
                 db_inner,
                 iter_count: AtomicU64::new(0),
+                epoch: AtomicU64::new(0),
             })
         }
     }
 
+    /// Increased each time the pending writes of the transaction are
+    /// cleared, which invalidates its iterators.
+    pub(crate) fn epoch(&self) -> u64 {
+        self.epoch.load(Ordering::SeqCst)
+    }
+
+    fn increase_epoch(&self) {
+        _ = self.epoch.fetch_add(1, Ordering::SeqCst);
+    }
+
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
@@ -161,8 +171,9 @@ impl RocksDBTransactionInner {
                 return Ok(None);
             }
 
-            let value = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
-            Ok(Some(value))
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
         }
     }
 
@@ -185,6 +196,7 @@ impl RocksDBTransactionInner {
     pub fn rollback(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
+            self.increase_epoch();
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
             check_err!(err);
@@ -195,7 +207,7 @@ impl RocksDBTransactionInner {
     pub(crate) fn commit(&self) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
-
+            self.increase_epoch();
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
diff --git a/src/polodb_core/errors.rs b/src/polodb_core/errors.rs
index a913421..ba50f60 100644
--- a/src/polodb_core/errors.rs
+++ b/src/polodb_core/errors.rs
@@ -250,6 +250,8 @@ pub enum Error {
     CannotApplyOperation(Box<CannotApplyOperationForTypes>),
     #[error("no transaction started")]
     NoTransactionStarted,
+    #[error("the transaction has ended")]
+    TransactionEnded,
     #[error("session is outdated")]
     SessionOutdated,
     #[error("the database is closed")]
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..000c1be 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -147,6 +147,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         cursor.seek(&index_key_tester);
 
         if !cursor.valid() {
+            cursor.error()?;
             return Ok(());
         }
         let current_key = cursor.copy_key_arc()?;
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 6222101..be90500 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -293,6 +293,7 @@ impl VM {
         db_iter.seek(pkey_in_kv.as_slice());
 
         if !db_iter.valid() {
+            db_iter.error()?;
             return Ok(None);
         }
         let current_key = db_iter.copy_key()?;
-- 
2.43.0


From d096d458117a4b66c8684c92bfbb68e3aa91286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 13/52] fix: cursors and transactions may outlive the database,
 and a failed cursor yields its error once

---
 src/polodb_core/db/client_cursor.rs              | 7 +++++--
 src/polodb_core/db/db_inner.rs                   | 5 ++++-
 src/polodb_core/db/mod.rs                        | 1 +
 src/polodb_core/transaction/transaction_inner.rs | 7 +++++--
 src/polodb_core/vm/vm.rs                         | 8 ++++----
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..add3fed 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -16,7 +16,7 @@ use std::fmt;
 use std::marker::PhantomData;
 use bson::Bson;
 use serde::de::DeserializeOwned;
-use crate::{Result};
+use crate::{Error, Result};
 use crate::vm::{VM, VmState};
 
 /// A `ClientCursor` is used get the result of a query.
@@ -57,6 +57,9 @@ impl<T: DeserializeOwned + Send + Sync> ClientCursor<T> {
     }
 
     pub fn deserialize_current(&self) -> Result<T> {
+        if !self.has_row() {
+            return Err(Error::VmIsHalt);
+        }
         let result: T = bson::from_bson(self.get().clone())?;
         Ok(result)
     }
@@ -82,7 +85,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..d7ada03 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -90,7 +90,10 @@ impl DatabaseInner {
     }
 
     pub fn start_transaction(&self) -> Result<TransactionInner> {
-        Ok(TransactionInner::new(self.rocksdb.begin_transaction()?))
+        Ok(TransactionInner::new(
+            self.rocksdb.clone(),
+            self.rocksdb.begin_transaction()?,
+        ))
     }
 
     fn internal_get_collection_id_by_name(&self, txn: &TransactionInner, name: &str) -> Result<CollectionSpecification> {
diff --git a/src/polodb_core/db/mod.rs b/src/polodb_core/db/mod.rs
index a9933a8..80130ce 100644
--- a/src/polodb_core/db/mod.rs
+++ b/src/polodb_core/db/mod.rs
@@ -22,4 +22,5 @@ mod rocksdb_options;
 
 pub use db::{Database, Result};
 pub(crate) use rocksdb_transaction::RocksDBTransaction;
+pub(crate) use rocksdb_wrapper::RocksDBWrapper;
 pub(crate) use rocksdb_iterator::RocksDBIterator;
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index dacac74..7f796ed 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -12,20 +12,23 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use crate::db::RocksDBTransaction;
+use crate::db::{RocksDBTransaction, RocksDBWrapper};
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
     pub(crate) rocksdb_txn: RocksDBTransaction,
     auto_commit: bool,
+    // keeps the storage open, must be dropped after the transaction
+    _rocksdb: RocksDBWrapper,
 }
 
 impl TransactionInner {
 
-    pub fn new(rocksdb_txn: RocksDBTransaction) -> TransactionInner {
+    pub fn new(rocksdb: RocksDBWrapper, rocksdb_txn: RocksDBTransaction) -> TransactionInner {
         TransactionInner {
             rocksdb_txn,
             auto_commit: true,
+            _rocksdb: rocksdb,
         }
     }
 
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index be90500..73207e0 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -805,7 +805,7 @@ impl VM {
                             let cursor = self.r1.as_mut().unwrap();
                             let key_opt = cursor.peek_key();
                             if let Some(key) = key_opt {
-                                txn.delete(key.as_ref())?;
+                                try_vm!(self, txn.delete(key.as_ref()));
                                 true
                             } else {
                                 false
@@ -821,7 +821,7 @@ impl VM {
                     DbOp::InsertIndex => {
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
-                        self.insert_index(index_info_id)?;
+                        try_vm!(self, self.insert_index(index_info_id));
 
                         self.pc = self.pc.add(5);
                     }
@@ -829,7 +829,7 @@ impl VM {
                     DbOp::DeleteIndex => {
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
-                        self.delete_index(index_info_id)?;
+                        try_vm!(self, self.delete_index(index_info_id));
 
                         self.pc = self.pc.add(5);
                     }
@@ -946,7 +946,7 @@ impl VM {
 
                     DbOp::Close => {
                         self.r1 = None;
-                        self.txn.auto_commit()?;
+                        try_vm!(self, self.txn.auto_commit());
 
                         self.pc = self.pc.add(1);
                     }
-- 
2.43.0


From 32299308222ebca9f6d09ea6a1e65b9df01a9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 14/52] fix: a statement which fails inside a transaction
 leaves no partial effect, and none runs once it has ended

---
 src/polodb_core/db/db_inner.rs                | 65 ++++++++-----------
 src/polodb_core/db/rocksdb_transaction.rs     | 46 ++++++++++++-
 .../transaction/transaction_inner.rs          | 17 +++++
 3 files changed, 90 insertions(+), 38 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index d7ada03..2e65b56 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -154,8 +154,7 @@ impl DatabaseInner {
 
     #[inline]
     pub fn create_collection_internal(&self, name: &str, txn: &TransactionInner) -> Result<CollectionSpecification> {
-        let meta = self.internal_create_collection(txn, name, &self.node_id)?;
-        Ok(meta)
+        txn.run_statement(|| self.internal_create_collection(txn, name, &self.node_id))
     }
 
     fn check_collection_exist(&self, txn: &TransactionInner, name: &str) -> Result<bool> {
@@ -203,9 +202,7 @@ impl DatabaseInner {
     pub fn create_index(&self, col_name: &str, index: IndexModel, txn: &TransactionInner) -> Result<()> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        self.internal_create_index(txn, col_name, index)?;
-
-        Ok(())
+        txn.run_statement(|| self.internal_create_index(txn, col_name, index))
     }
 
     fn internal_create_index(&self, txn: &TransactionInner, col_name: &str, index: IndexModel) -> Result<()> {
@@ -294,9 +291,7 @@ impl DatabaseInner {
     pub fn drop_index(&self, col_name: &str, index_name: &str, txn: &TransactionInner) -> Result<()> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        self.internal_drop_index(col_name, index_name, txn)?;
-
-        Ok(())
+        txn.run_statement(|| self.internal_drop_index(col_name, index_name, txn))
     }
 
     fn internal_drop_index(&self, col_name: &str, index_name: &str, txn: &TransactionInner) -> Result<()> {
@@ -410,9 +405,7 @@ impl DatabaseInner {
     pub fn insert_one(&self, col_name: &str, doc: Document, txn: &TransactionInner) -> Result<InsertOneResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let changed = self.insert_one_internal(txn, col_name, doc, &self.node_id)?;
-
-        Ok(changed)
+        txn.run_statement(|| self.insert_one_internal(txn, col_name, doc, &self.node_id))
     }
 
     fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document, node_id: &[u8; 6]) -> Result<InsertOneResult> {
@@ -476,24 +469,26 @@ impl DatabaseInner {
     ) -> Result<InsertManyResult> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        let result = self.insert_many_internal(txn, col_name, docs, &self.node_id)?;
+        let docs = docs
+            .into_iter()
+            .map(|item| bson::to_document(item.borrow()))
+            .collect::<std::result::Result<Vec<Document>, _>>()?;
 
-        Ok(result)
+        txn.run_statement(|| self.insert_many_internal(txn, col_name, docs, &self.node_id))
     }
 
-    fn insert_many_internal<T: Serialize>(
+    fn insert_many_internal(
         &self,
         txn: &TransactionInner,
         col_name: &str,
-        docs: impl IntoIterator<Item = impl Borrow<T>>,
+        docs: Vec<Document>,
         node_id: &[u8; 6],
     ) -> Result<InsertManyResult> {
         let mut col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
             .expect("internal: meta must exist");
         let mut inserted_ids: HashMap<usize, Bson> = HashMap::new();
 
-        for (counter, item) in docs.into_iter().enumerate() {
-            let doc = bson::to_document(item.borrow())?;
+        for (counter, doc) in docs.into_iter().enumerate() {
             let (insert_one_result, new_col_spec) = self.insert_one_with_meta(txn, col_spec, doc)?;
             inserted_ids.insert(counter, insert_one_result.inserted_id);
 
@@ -536,9 +531,9 @@ impl DatabaseInner {
 
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        let result = self.internal_update(col_name, query, update, false, options, &txn)?;
-
-        Ok(result)
+        txn.run_statement(|| {
+            self.internal_update(col_name, query, update, false, options, &txn)
+        })
     }
 
     pub(crate) fn update_many(
@@ -553,16 +548,16 @@ impl DatabaseInner {
 
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        let result = self.internal_update(
-            col_name,
-            query,
-            update,
-            true,
-            options,
-            &txn,
-        )?;
-
-        Ok(result)
+        txn.run_statement(|| {
+            self.internal_update(
+                col_name,
+                query,
+                update,
+                true,
+                options,
+                &txn,
+            )
+        })
     }
 
     fn internal_update(
@@ -641,9 +636,7 @@ impl DatabaseInner {
     pub fn drop_collection(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
         DatabaseInner::validate_col_name(col_name)?;
 
-        self.drop_collection_internal(col_name, txn)?;
-
-        Ok(())
+        txn.run_statement(|| self.drop_collection_internal(col_name, txn))
     }
 
     fn drop_collection_internal(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
@@ -699,8 +692,7 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        let result = self.internal_delete_by_query(&txn, col_name, query, is_many)?;
-        Ok(result)
+        txn.run_statement(|| self.internal_delete_by_query(&txn, col_name, query, is_many))
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
@@ -761,8 +753,7 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let mut txn= txn.clone();
         txn.set_auto_commit(false);
-        let result = self.internal_delete_all(&txn, col_name)?;
-        Ok(result)
+        txn.run_statement(|| self.internal_delete_all(&txn, col_name))
     }
 
     // fn get_primary_keys_by_query(&mut self, session: &mut SessionInner, col_name: &str, query: Option<Document>, is_many: bool) -> DbResult<Vec<Bson>> {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index d129bb4..b79f78b 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -15,7 +15,7 @@
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
 use libc::c_char;
 use polodb_librocksdb_sys as ffi;
 use crate::db::rocksdb_options::{RocksDBReadOptions, RocksDBTransactionOptions, RocksDBWriteOptions};
@@ -76,6 +76,16 @@ impl RocksDBTransaction {
         inner.rollback()
     }
 
+    pub fn set_savepoint(&self) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.set_savepoint()
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.rollback_to_savepoint()
+    }
+
     pub fn commit(&self) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.commit()
@@ -91,6 +101,8 @@ pub(crate) struct RocksDBTransactionInner {
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
     epoch: AtomicU64,
+    ended: AtomicBool,
+    written_since_savepoint: AtomicBool,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -120,6 +132,8 @@ impl RocksDBTransactionInner {
                 db_inner,
                 iter_count: AtomicU64::new(0),
                 epoch: AtomicU64::new(0),
+                ended: AtomicBool::new(false),
+                written_since_savepoint: AtomicBool::new(false),
             })
         }
     }
@@ -138,6 +152,7 @@ impl RocksDBTransactionInner {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
+            self.written_since_savepoint.store(true, Ordering::SeqCst);
             ffi::rocksdb_transaction_put(
                 self.inner,
                 key.as_ptr().cast::<c_char>(),
@@ -181,6 +196,7 @@ impl RocksDBTransactionInner {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
 
+            self.written_since_savepoint.store(true, Ordering::SeqCst);
             ffi::rocksdb_transaction_delete(
                 self.inner,
                 key.as_ptr().cast::<c_char>(),
@@ -199,6 +215,33 @@ impl RocksDBTransactionInner {
             self.increase_epoch();
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
 
+            check_err!(err);
+            self.ended.store(true, Ordering::SeqCst);
+            Ok(())
+        }
+    }
+
+    /// Marks the state `rollback_to_savepoint` goes back to.
+    pub fn set_savepoint(&self) -> Result<()> {
+        if self.ended.load(Ordering::SeqCst) {
+            return Err(crate::Error::TransactionEnded);
+        }
+        unsafe {
+            ffi::rocksdb_transaction_set_savepoint(self.inner);
+        }
+        self.written_since_savepoint.store(false, Ordering::SeqCst);
+        Ok(())
+    }
+
+    pub fn rollback_to_savepoint(&self) -> Result<()> {
+        if !self.written_since_savepoint.load(Ordering::SeqCst) {
+            return Ok(());
+        }
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            self.increase_epoch();
+            ffi::rocksdb_transaction_rollback_to_savepoint(self.inner, &mut err);
+
             check_err!(err);
             Ok(())
         }
@@ -211,6 +254,7 @@ impl RocksDBTransactionInner {
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
 
             check_err!(err);
+            self.ended.store(true, Ordering::SeqCst);
             Ok(())
         }
     }
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 7f796ed..88047a4 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -12,12 +12,14 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+use std::sync::{Arc, Mutex};
 use crate::db::{RocksDBTransaction, RocksDBWrapper};
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
     pub(crate) rocksdb_txn: RocksDBTransaction,
     auto_commit: bool,
+    statement_lock: Arc<Mutex<()>>,
     // keeps the storage open, must be dropped after the transaction
     _rocksdb: RocksDBWrapper,
 }
@@ -28,6 +30,7 @@ impl TransactionInner {
         TransactionInner {
             rocksdb_txn,
             auto_commit: true,
+            statement_lock: Arc::new(Mutex::new(())),
             _rocksdb: rocksdb,
         }
     }
@@ -42,6 +45,20 @@ impl TransactionInner {
         self.auto_commit
     }
 
+    /// Run a statement which writes: when it fails, what it has written is undone,
+    /// and the transaction goes on from the state before the statement.
+    pub fn run_statement<R>(&self, statement: impl FnOnce() -> crate::Result<R>) -> crate::Result<R> {
+        let _guard = self.statement_lock.lock()?;
+        self.rocksdb_txn.set_savepoint()?;
+        match statement() {
+            Ok(result) => Ok(result),
+            Err(err) => match self.rocksdb_txn.rollback_to_savepoint() {
+                Ok(()) => Err(err),
+                Err(rollback_err) => Err(err.add(rollback_err)),
+            },
+        }
+    }
+
     #[inline]
     pub fn put(&self, key: &[u8], value: &[u8]) -> crate::Result<()> {
         self.rocksdb_txn.set(key, value)
-- 
2.43.0


From afb3e7e7ac477600ba9fffdb239c7018d5459acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 15/52] fix: deleting from a collection which does not exist
 does not create it

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 2e65b56..a4cd449 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -696,7 +696,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From 4dd96bc258266ae4207802feaa5b7a79cf4272f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 16/52] fix: creating an index refuses an empty collection name

---
 src/polodb_core/db/db_inner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index a4cd449..f9b7168 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -238,6 +238,9 @@ impl DatabaseInner {
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
             Err(Error::CollectionNotFound(_)) => {
+                if col_name.is_empty() {
+                    return Err(Error::IllegalCollectionName(col_name.into()));
+                }
                 let uuid = uuid::Uuid::now_v1(&self.node_id);
                 CollectionSpecification::new(col_name.to_string(), uuid)
             }
-- 
2.43.0


From 8e2997d8935952dc2b05d860889b59a65380be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 17/52] fix: zero bytes in strings do not end the keys made of
 them

---
 src/polodb_core/utils/bson.rs | 54 +++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 9958129..f6b7ff3 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -31,6 +31,41 @@ pub fn stacked_key<'a, T: IntoIterator<Item = &'a Bson>>(keys: T) -> Result<Vec<
     Ok(result)
 }
 
+// A string ends with a zero byte in a key. The zero bytes in the string
+// are written as two bytes which never occur in UTF-8.
+const KEY_ZERO: [u8; 2] = [0xC0, 0x80];
+
+fn write_key_str<W: Write>(writer: &mut W, str: &str) -> Result<()> {
+    for (index, part) in str.as_bytes().split(|byte| *byte == 0).enumerate() {
+        if index > 0 {
+            writer.write_all(&KEY_ZERO)?;
+        }
+        writer.write_all(part)?;
+    }
+
+    writer.write_u8(0)?;
+    Ok(())
+}
+
+fn read_key_str(reader: &mut &[u8]) -> Result<String> {
+    let mut bytes = Vec::<u8>::new();
+    reader.read_until(0, &mut bytes)?;
+    // remove last byte of bytes
+    bytes.pop();
+
+    let mut result = Vec::<u8>::with_capacity(bytes.len());
+    let mut rest = bytes.iter();
+    while let Some(byte) = rest.next() {
+        if *byte == KEY_ZERO[0] {
+            rest.next();
+            result.push(0);
+        } else {
+            result.push(*byte);
+        }
+    }
+    Ok(String::from_utf8(result)?)
+}
+
 pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
     match key {
         Bson::Double(dbl) => {
@@ -40,9 +75,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::String(str) => {
             writer.write_u8(ElementType::String as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_key_str(writer, str)?;
         }
         Bson::Boolean(bl) => {
             writer.write_u8(ElementType::Boolean as u8)?;
@@ -85,9 +118,7 @@ pub fn stacked_key_bytes<W: Write>(writer: &mut W, key: &Bson) -> Result<()> {
         Bson::Symbol(str) => {
             writer.write_u8(ElementType::Symbol as u8)?;
 
-            writer.write_all(str.as_bytes())?;
-
-            writer.write_u8(0)?;
+            write_key_str(writer, str)?;
         }
         Bson::Decimal128(dcl) => {
             writer.write_u8(ElementType::Decimal128 as u8)?;
@@ -123,11 +154,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let val = reader.read_f64::<BigEndian>()?;
             result.push(Bson::Double(val));
         } else if ch == ElementType::String as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            // remove last byte of bytes
-            bytes.pop();
-            result.push(Bson::String(String::from_utf8(bytes)?));
+            result.push(Bson::String(read_key_str(&mut reader)?));
         } else if ch == ElementType::Boolean as u8 {
             let val = reader.read_u8()?;
             result.push(Bson::Boolean(val != 0));
@@ -155,10 +182,7 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
             let datetime = DateTime::from_millis(val);
             result.push(Bson::DateTime(datetime));
         } else if ch == ElementType::Symbol as u8 {
-            let mut bytes = Vec::<u8>::new();
-            reader.read_until(0, &mut bytes)?;
-            bytes.pop();
-            result.push(Bson::Symbol(String::from_utf8(bytes)?));
+            result.push(Bson::Symbol(read_key_str(&mut reader)?));
         } else if ch == ElementType::Decimal128 as u8 {
             let mut bytes = [0u8; 16];
             reader.read_exact(&mut bytes)?;
-- 
2.43.0


From cad4dd7d231ab253016be0038a4fce6f8e4fd1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 18/52] fix: updating and deleting lock the documents, so that
 no concurrent update is lost

---
 src/polodb_core/cursor.rs                 | 12 ++++++
 src/polodb_core/db/db_inner.rs            | 47 +++++++++++++++--------
 src/polodb_core/db/rocksdb_transaction.rs | 32 +++++++++++++++
 src/polodb_core/vm/vm.rs                  | 12 ++++++
 4 files changed, 86 insertions(+), 17 deletions(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index cebe158..b7aa673 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -50,6 +50,18 @@ impl Cursor {
         self.kv_cursor.copy_data()
     }
 
+    /// Lock the current document for writing.
+    /// Returns false if another transaction has changed it since it was read.
+    pub fn lock_current(&self, txn: &TransactionInner) -> Result<bool> {
+        match &self.current_key {
+            Some(key) => {
+                let latest = txn.rocksdb_txn.get_for_update(key.as_ref(), true)?;
+                Ok(latest == Some(self.kv_cursor.copy_data()?))
+            }
+            None => Ok(true),
+        }
+    }
+
     pub fn update_current(&mut self, txn: &TransactionInner, value: &[u8]) -> Result<bool> {
         if let Some(key) = &self.current_key {
             txn.rocksdb_txn.set(key.as_ref(), value)?;
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index f9b7168..5fecc36 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -522,6 +522,17 @@ impl DatabaseInner {
         Ok(handle)
     }
 
+    /// Run a statement which writes the documents it reads. It is run again when
+    /// another transaction has changed one of the documents in the meantime.
+    fn run_with_retry<R>(&self, txn: &TransactionInner, statement: impl Fn() -> Result<R>) -> Result<R> {
+        loop {
+            match txn.run_statement(&statement) {
+                Err(Error::Busy) => continue,
+                result => return result,
+            }
+        }
+    }
+
     pub fn update_one(
         &self,
         col_name: &str,
@@ -534,8 +545,8 @@ impl DatabaseInner {
 
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        txn.run_statement(|| {
-            self.internal_update(col_name, query, update, false, options, &txn)
+        self.run_with_retry(&txn, || {
+            self.internal_update(col_name, &query, &update, false, &options, &txn)
         })
     }
 
@@ -551,13 +562,13 @@ impl DatabaseInner {
 
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        txn.run_statement(|| {
+        self.run_with_retry(&txn, || {
             self.internal_update(
                 col_name,
-                query,
-                update,
+                &query,
+                &update,
                 true,
-                options,
+                &options,
                 &txn,
             )
         })
@@ -566,10 +577,10 @@ impl DatabaseInner {
     fn internal_update(
         &self,
         col_name: &str,
-        query: Document,
-        update: Document,
+        query: &Document,
+        update: &Document,
         is_many: bool,
-        options: UpdateOptions,
+        options: &UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, txn)?;
@@ -578,8 +589,8 @@ impl DatabaseInner {
             Some(col_spec) => {
                 let subprogram = SubProgram::compile_update(
                     col_spec,
-                    &query,
-                    &update,
+                    query,
+                    update,
                     true,
                     is_many,
                 )?;
@@ -620,7 +631,7 @@ impl DatabaseInner {
         Ok(doc)
     }
 
-    fn upsert(&self, col_name: &str, query: Document, update: Document, txn: &TransactionInner) -> Result<()> {
+    fn upsert(&self, col_name: &str, query: &Document, update: &Document, txn: &TransactionInner) -> Result<()> {
         // extract $set from update
         let set = update.get("$set");
         if set.is_none() {
@@ -630,7 +641,7 @@ impl DatabaseInner {
         let set = set.unwrap();
 
         let doc = set.as_document().ok_or(Error::SetIsNotADocument)?;
-        let merged_doc = DatabaseInner::merge_query_and_update(&query, doc)?;
+        let merged_doc = DatabaseInner::merge_query_and_update(query, doc)?;
 
         let _insert_result = self.insert_one_internal(txn, col_name, merged_doc, &self.node_id)?;
 
@@ -695,10 +706,12 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let mut txn = txn.clone();
         txn.set_auto_commit(false);
-        txn.run_statement(|| self.internal_delete_by_query(&txn, col_name, query, is_many))
+        self.run_with_retry(&txn, || {
+            self.internal_delete_by_query(&txn, col_name, &query, is_many)
+        })
     }
 
-    fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
+    fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: &Document, is_many: bool) -> Result<usize> {
         let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
@@ -708,7 +721,7 @@ impl DatabaseInner {
         let subprogram = SubProgram::compile_delete(
             &col_spec,
             col_name,
-            Some(&query),
+            Some(query),
             true,
             is_many,
         )?;
@@ -756,7 +769,7 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let mut txn= txn.clone();
         txn.set_auto_commit(false);
-        txn.run_statement(|| self.internal_delete_all(&txn, col_name))
+        self.run_with_retry(&txn, || self.internal_delete_all(&txn, col_name))
     }
 
     // fn get_primary_keys_by_query(&mut self, session: &mut SessionInner, col_name: &str, query: Option<Document>, is_many: bool) -> DbResult<Vec<Bson>> {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index b79f78b..d08cb09 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -66,6 +66,12 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    /// Lock the key until the end of the transaction and return its latest value.
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        let inner = self.inner.lock().unwrap();
+        inner.get_for_update(key, exclusive)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
@@ -192,6 +198,32 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn get_for_update(&self, key: &[u8], exclusive: bool) -> Result<Option<Vec<u8>>> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                exclusive as libc::c_uchar,
+                &mut err,
+            );
+
+            check_err!(err);
+
+            if value.is_null() {
+                return Ok(None);
+            }
+
+            let result = std::slice::from_raw_parts(value as *const u8, value_len).to_vec();
+            ffi::rocksdb_free(value.cast());
+            Ok(Some(result))
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 73207e0..9957c31 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -431,6 +431,15 @@ impl VM {
         Ok(())
     }
 
+    /// Must be called before the current document is changed: the change
+    /// is made from what the cursor has read.
+    fn lock_current(&self) -> Result<()> {
+        match &self.r1 {
+            Some(cursor) if !cursor.lock_current(&self.txn)? => Err(Error::Busy),
+            _ => Ok(()),
+        }
+    }
+
     fn update_current(&mut self) -> Result<()> {
         if self.r0 == 0 {
             return Ok(());
@@ -555,6 +564,7 @@ impl VM {
                     }
 
                     DbOp::IncR2 => {
+                        try_vm!(self, self.lock_current());
                         self.r2 += 1;
                         self.pc = self.pc.add(1);
                     }
@@ -800,6 +810,7 @@ impl VM {
                     }
 
                     DbOp::DeleteCurrent => {
+                        try_vm!(self, self.lock_current());
                         let txn = &self.txn;
                         let deleted = {
                             let cursor = self.r1.as_mut().unwrap();
@@ -829,6 +840,7 @@ impl VM {
                     DbOp::DeleteIndex => {
                         let index_info_id = self.pc.add(1).cast::<u32>().read();
 
+                        try_vm!(self, self.lock_current());
                         try_vm!(self, self.delete_index(index_info_id));
 
                         self.pc = self.pc.add(5);
-- 
2.43.0


From 6b13a60d2e4d5a824a9c6182b0be252f06efa2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 19/52] fix: inserting locks the identifier, the unique values
 and the collection, so that no concurrent statement breaks them

---
 src/polodb_core/db/db_inner.rs        | 50 +++++++++++++++++++--------
 src/polodb_core/index/index_helper.rs |  3 ++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 5fecc36..6ff4fec 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -116,19 +116,41 @@ impl DatabaseInner {
         Ok(entry)
     }
 
+    /// Lock the specification of the collection until the end of the transaction.
+    /// Those who write documents share the lock, and those who change the collection
+    /// or its indexes don't.
+    fn lock_collection(&self, txn: &TransactionInner, name: &str, exclusive: bool) -> Result<CollectionSpecification> {
+        let stacked_key = crate::utils::bson::stacked_key(&[
+            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(name.to_string()),
+        ])?;
+
+        match txn.rocksdb_txn.get_for_update(stacked_key.as_slice(), exclusive)? {
+            Some(data) => Ok(bson::from_slice::<CollectionSpecification>(data.as_slice())?),
+            None => Err(Error::CollectionNotFound(name.to_string())),
+        }
+    }
+
     pub fn get_collection_meta_by_name_advanced_auto(
         &self,
         name: &str,
-        create_if_not_exist: bool,
         txn: &TransactionInner,
     ) -> Result<Option<CollectionSpecification>> {
-        let result = DatabaseInner::get_collection_meta_by_name_advanced(self, txn, name, create_if_not_exist, &self.node_id)?;
-
-        Ok(result)
+        match self.internal_get_collection_id_by_name(txn, name) {
+            Ok(meta) => Ok(Some(meta)),
+            Err(Error::CollectionNotFound(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
     }
 
+    /// The specification of the collection for writing documents
     pub fn get_collection_meta_by_name_advanced(&self, txn: &TransactionInner, name: &str, create_if_not_exist: bool, node_id: &[u8; 6]) -> Result<Option<CollectionSpecification>> {
-        match self.internal_get_collection_id_by_name(txn, name) {
+        let exist = self.get_collection_meta_by_name_advanced_auto(name, txn)?.is_some();
+        if !exist && !create_if_not_exist {
+            return Ok(None);
+        }
+
+        match self.lock_collection(txn, name, !exist) {
             Ok(meta) => Ok(Some(meta)),
             Err(Error::CollectionNotFound(_)) => {
                 if create_if_not_exist {
@@ -158,7 +180,7 @@ impl DatabaseInner {
     }
 
     fn check_collection_exist(&self, txn: &TransactionInner, name: &str) -> Result<bool> {
-        let test_collection = self.internal_get_collection_id_by_name(txn, name);
+        let test_collection = self.lock_collection(txn, name, true);
         match test_collection {
             Ok(_) => Ok(true),
             Err(Error::CollectionNotFound(_)) => Ok(false),
@@ -234,7 +256,7 @@ impl DatabaseInner {
 
         let index_name = DatabaseInner::make_index_name(key, 1, options)?;
 
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
+        let test_collection_spec = self.lock_collection(txn, col_name, true);
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
             Err(Error::CollectionNotFound(_)) => {
@@ -298,7 +320,7 @@ impl DatabaseInner {
     }
 
     fn internal_drop_index(&self, col_name: &str, index_name: &str, txn: &TransactionInner) -> Result<()> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
+        let test_collection_spec = self.lock_collection(txn, col_name, true);
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
             Err(Error::CollectionNotFound(_)) => {
@@ -430,7 +452,7 @@ impl DatabaseInner {
             pkey,
         ])?;
 
-        if txn.rocksdb_txn.get(stacked_key.as_ref())?.is_some() {
+        if txn.rocksdb_txn.get_for_update(stacked_key.as_ref(), true)?.is_some() {
             return Err(DuplicateKeyError {
                 name: "_id_".to_string(),
                 key: pkey.to_string(),
@@ -583,7 +605,7 @@ impl DatabaseInner {
         options: &UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, txn)?;
+        let meta_opt = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
 
         let result = match &meta_opt {
             Some(col_spec) => {
@@ -654,7 +676,7 @@ impl DatabaseInner {
     }
 
     fn drop_collection_internal(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
+        let test_collection_spec = self.lock_collection(txn, col_name, true);
         let collection_spec = match test_collection_spec {
             Ok(collection_spec) => collection_spec,
             Err(Error::CollectionNotFound(_)) => return Ok(()),
@@ -737,7 +759,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_all(&self, txn: &TransactionInner, col_name: &str) -> Result<usize> {
-        let test_collection_spec = self.internal_get_collection_id_by_name(txn, col_name);
+        let test_collection_spec = self.lock_collection(txn, col_name, false);
         let collection_spec = match test_collection_spec {
             Ok(collection_spec) => collection_spec,
             Err(Error::CollectionNotFound(_)) => return Ok(0),
@@ -801,7 +823,6 @@ impl DatabaseInner {
 
         let col = self.get_collection_meta_by_name_advanced_auto(
             name,
-            false,
             txn,
         )?;
         if col.is_none() {
@@ -856,7 +877,6 @@ impl DatabaseInner {
         let filter_query = filter.into();
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(
             col_name,
-            false,
             &txn,
         )?;
         let subprogram = match meta_opt {
@@ -946,7 +966,7 @@ impl DatabaseInner {
         txn: TransactionInner,
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
-        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, false, &txn)?;
+        let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, &txn)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
                 SubProgram::compile_aggregate(
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 000c1be..6653921 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,6 +143,9 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // two transactions must not both find that the value is free
+        txn.rocksdb_txn.get_for_update(&index_key_tester, true)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
-- 
2.43.0


From ca3c88dd4682abbf0d568c2345858a127d12ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 20/52] fix: all the reads of a query, an aggregation or a
 count see the same committed state

---
 src/polodb_core/db/db_inner.rs                |  5 +-
 src/polodb_core/db/rocksdb_iterator.rs        | 15 ++++--
 src/polodb_core/db/rocksdb_options.rs         |  6 +++
 src/polodb_core/db/rocksdb_transaction.rs     | 54 ++++++++++++++++++-
 .../transaction/transaction_inner.rs          |  8 +++
 5 files changed, 82 insertions(+), 6 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 6ff4fec..efd4388 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -821,9 +821,10 @@ impl DatabaseInner {
     pub fn count(&self, name: &str, txn: &TransactionInner) -> Result<u64> {
         DatabaseInner::validate_col_name(name)?;
 
+        let txn = txn.at_snapshot();
         let col = self.get_collection_meta_by_name_advanced_auto(
             name,
-            txn,
+            &txn,
         )?;
         if col.is_none() {
             return Ok(0);
@@ -875,6 +876,7 @@ impl DatabaseInner {
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
         let filter_query = filter.into();
+        let txn = txn.at_snapshot();
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(
             col_name,
             &txn,
@@ -966,6 +968,7 @@ impl DatabaseInner {
         txn: TransactionInner,
     ) -> Result<ClientCursor<T>> {
         DatabaseInner::validate_col_name(col_name)?;
+        let txn = txn.at_snapshot();
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, &txn)?;
         let subprogram = match meta_opt {
             Some(col_spec) => {
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 4d516f9..b2bdcc7 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -16,6 +16,7 @@ use std::ptr::null_mut;
 use std::sync::{Arc, Mutex, MutexGuard};
 use std::sync::atomic::Ordering;
 use libc::c_char;
+use crate::db::rocksdb_options::RocksDBReadOptions;
 use crate::db::rocksdb_transaction::RocksDBTransactionInner;
 use polodb_librocksdb_sys as ffi;
 use super::db::Result;
@@ -26,8 +27,11 @@ pub(crate) struct RocksDBIterator {
 }
 
 impl RocksDBIterator {
-    pub(crate) fn new(txn_inner: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIterator {
-        let inner = RocksDBIteratorInner::new(txn_inner);
+    pub(crate) fn new(
+        txn_inner: Arc<Mutex<RocksDBTransactionInner>>,
+        read_options: Option<&RocksDBReadOptions>,
+    ) -> RocksDBIterator {
+        let inner = RocksDBIteratorInner::new(txn_inner, read_options);
         RocksDBIterator {
             inner: Arc::new(inner),
         }
@@ -86,13 +90,16 @@ unsafe impl Sync for RocksDBIteratorInner {}
 
 impl RocksDBIteratorInner {
 
-    pub(crate) fn new(txn: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBIteratorInner {
+    pub(crate) fn new(
+        txn: Arc<Mutex<RocksDBTransactionInner>>,
+        read_options: Option<&RocksDBReadOptions>,
+    ) -> RocksDBIteratorInner {
         let (inner, epoch) = {
             let txn_inner = txn.lock().unwrap();
             let inner = unsafe {
                 ffi::rocksdb_transaction_create_iterator(
                     txn_inner.inner,
-                    txn_inner.read_options.get(),
+                    read_options.unwrap_or(&txn_inner.read_options).get(),
                 )
             };
             _ = txn_inner.iter_count.fetch_add(1, Ordering::SeqCst);
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index fc4cf78..4e7015b 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -94,6 +94,12 @@ impl RocksDBReadOptions {
         RocksDBReadOptions { inner }
     }
 
+    pub(crate) fn set_snapshot(&self, snapshot: *const ffi::rocksdb_snapshot_t) {
+        unsafe {
+            ffi::rocksdb_readoptions_set_snapshot(self.inner, snapshot);
+        }
+    }
+
     pub(crate) fn get(&self) -> *mut ffi::rocksdb_readoptions_t {
         self.inner
     }
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index d08cb09..fb27ef9 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -39,20 +39,72 @@ macro_rules! check_err {
 
 #[derive(Clone)]
 pub(crate) struct RocksDBTransaction {
+    snapshot: Option<Arc<RocksDBSnapshot>>,
     inner: Arc<Mutex<RocksDBTransactionInner>>,
 }
 
+/// The committed state of the database at a point in time
+struct RocksDBSnapshot {
+    read_options: RocksDBReadOptions,
+    inner: *const ffi::rocksdb_snapshot_t,
+    txn: Arc<Mutex<RocksDBTransactionInner>>,
+}
+
+unsafe impl Send for RocksDBSnapshot {}
+unsafe impl Sync for RocksDBSnapshot {}
+
+impl RocksDBSnapshot {
+
+    fn new(txn: Arc<Mutex<RocksDBTransactionInner>>) -> RocksDBSnapshot {
+        let inner = {
+            let txn_inner = txn.lock().unwrap();
+            unsafe { ffi::rocksdb_transactiondb_create_snapshot((*txn_inner.db_inner).inner) }
+        };
+        let read_options = RocksDBReadOptions::new();
+        read_options.set_snapshot(inner);
+        RocksDBSnapshot {
+            read_options,
+            inner,
+            txn,
+        }
+    }
+
+}
+
+impl Drop for RocksDBSnapshot {
+    fn drop(&mut self) {
+        let txn_inner = match self.txn.lock() {
+            Ok(guard) => guard,
+            Err(err) => err.into_inner(),
+        };
+        unsafe {
+            ffi::rocksdb_transactiondb_release_snapshot((*txn_inner.db_inner).inner, self.inner);
+        }
+    }
+}
+
 impl RocksDBTransaction {
 
     pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransaction>  {
         let inner = RocksDBTransactionInner::new(db_inner)?;
         Ok(RocksDBTransaction {
+            snapshot: None,
             inner: Arc::new(Mutex::new(inner)),
         })
     }
 
+    /// The same transaction, which reads its own writes and what was
+    /// committed before this call.
+    pub(crate) fn at_snapshot(&self) -> RocksDBTransaction {
+        RocksDBTransaction {
+            snapshot: Some(Arc::new(RocksDBSnapshot::new(self.inner.clone()))),
+            inner: self.inner.clone(),
+        }
+    }
+
     pub fn new_iterator(&self) -> RocksDBIterator {
-        RocksDBIterator::new(self.inner.clone())
+        let read_options = self.snapshot.as_ref().map(|snapshot| &snapshot.read_options);
+        RocksDBIterator::new(self.inner.clone(), read_options)
     }
 
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index 88047a4..671ec8d 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -39,6 +39,14 @@ impl TransactionInner {
         self.auto_commit = auto_commit;
     }
 
+    /// The transaction a reading statement should use: all of its
+    /// reads see the same state.
+    pub fn at_snapshot(&self) -> TransactionInner {
+        let mut txn = self.clone();
+        txn.rocksdb_txn = self.rocksdb_txn.at_snapshot();
+        txn
+    }
+
     #[inline]
     #[allow(dead_code)]
     pub fn is_auto_commit(&self) -> bool {
-- 
2.43.0


From 7186b4aa886e1d13164b8091041f4f21ad7c9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 21/52] fix: the stages of a pipeline signal the end of their
 input once, so that limit, skip, sort and count compose

---
 src/polodb_core/action/find.rs      |  4 ++--
 src/polodb_core/vm/codegen.rs       | 11 ++-------
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  8 +++----
 src/polodb_core/vm/vm_skip.rs       |  6 ++---
 src/polodb_core/vm/vm_sort.rs       | 37 +++++++++++++++--------------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 7 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..c6ff9f8 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -86,13 +86,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": skip.min(i64::MAX as u64) as i64,
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": limit.min(i64::MAX as u64) as i64,
                     });
                 }
 
diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 423d02e..95487be 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1035,10 +1035,7 @@ impl Codegen {
         let stage = &pipeline[index];
         let stage_ctx_item = &ctx.items[index];
         let stage_num = format!("{}", index);
-        if stage.is_empty() {
-            return Ok(());
-        }
-        if stage.len() > 1 {
+        if stage.len() != 1 {
             return Err(Error::InvalidAggregationStage(Box::new(stage.clone())));
         }
 
@@ -1157,11 +1154,7 @@ impl Codegen {
         ctx: &mut AggregationCodeGenContext,
         pipeline: &[Document],
     ) -> Result<()> {
-        for stage_doc in pipeline {
-            if stage_doc.is_empty() {
-                return Ok(());
-            }
-
+        for _ in pipeline {
             let label = self.new_label();
 
             ctx.items.push(PipelineItem { next_label: label });
diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..37fd8f2 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,16 +13,18 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
-use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use bson::{Bson, Document};
+use indexmap::IndexMap;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    // the order of the fields is significant: the first one is compared first
+    order_map: IndexMap<String, i8>,
     buffer: RefCell<Vec<Document>>,
+    sorted: AtomicBool,
     idx: AtomicUsize,
 }
 
@@ -30,11 +32,11 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = IndexMap::default();
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(1) | Bson::Int64(1) => 1,
+                        Bson::Int32(-1) | Bson::Int64(-1) => -1,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
                     result.insert(k.clone(), order);
@@ -49,6 +51,7 @@ impl VmFuncSort {
         let result = VmFuncSort {
             order_map,
             buffer: RefCell::new(Vec::default()),
+            sorted: AtomicBool::new(false),
             idx: AtomicUsize::new(0),
         };
         Ok(Box::new(result))
@@ -101,17 +104,15 @@ impl VmExternalFunc for VmFuncSort {
                 Ok(VmExternalFuncStatus::Continue)
             }
             Bson::Null => {
-                self.sort_array();
-                let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                if !self.sorted.swap(true, Ordering::Relaxed) {
+                    self.sort_array();
+                }
+                let idx = self.idx.fetch_add(1, Ordering::Relaxed);
+                let buffer = self.buffer.borrow();
+                match buffer.get(idx) {
+                    Some(doc) => Ok(VmExternalFuncStatus::Next(doc.clone().into())),
+                    None => Ok(VmExternalFuncStatus::Continue),
+                }
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
@@ -120,7 +121,7 @@ impl VmExternalFunc for VmFuncSort {
     }
 
     fn is_completed(&self) -> bool {
-        let idx = self.idx.load(std::sync::atomic::Ordering::Relaxed);
+        let idx = self.idx.load(Ordering::Relaxed);
         let buffer = self.buffer.borrow();
         idx >= buffer.len()
     }
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From b1772c71b90f3b26c600726563de6f22fc6f5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 22/52] fix: $sort follows dotted paths, $addFields reads its
 input and $abs covers doubles and the smallest integers

---
 src/polodb_core/vm/operators/abs_operator.rs | 26 +++++++++-----------
 src/polodb_core/vm/vm_add_fields.rs          |  7 +++---
 src/polodb_core/vm/vm_sort.rs                | 15 +++++++++--
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..6860c6c 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,15 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64(i64::from(v).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
+            Bson::Double(v) => Bson::Double(v.abs()),
             _ => input,
         }
     }
@@ -45,13 +46,8 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => {
+                OperatorExpr::Constant(Self::bson_abs(v.clone()))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index b4ce2fb..f0bca57 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -72,17 +72,18 @@ impl VmExternalFunc for VmFuncAddFields {
         if arg0.as_null().is_some() {
             return Ok(VmExternalFuncStatus::Continue);
         }
-        let mut doc = match arg0 {
-            Bson::Document(doc) => doc.clone(),
+        let input = match arg0 {
+            Bson::Document(doc) => doc,
             _ => return Err(Error::UnknownAggregationOperation("Invalid argument for $addFields".to_string())),
         };
+        let mut doc = input.clone();
         for (k, v) in &self.fields {
             let value = match v {
                 OperatorExpr::Expr(op) => op.next(arg0),
                 OperatorExpr::Constant(v) => v.clone(),
                 OperatorExpr::Alias(alias) => {
                     let alias = alias.as_str();
-                    doc.get(alias).cloned().unwrap_or(Bson::Null)
+                    input.get(alias).cloned().unwrap_or(Bson::Null)
                 }
             };
             doc.insert(k.clone(), value);
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index 37fd8f2..82d7387 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -65,12 +65,23 @@ impl VmFuncSort {
         }
     }
 
+    fn value_at<'a>(doc: &'a Document, path: &str) -> Option<&'a Bson> {
+        if let Some(value) = doc.get(path) {
+            return Some(value);
+        }
+        let (first, remains) = path.split_once('.')?;
+        match doc.get(first)? {
+            Bson::Document(sub_doc) => Self::value_at(sub_doc, remains),
+            _ => None,
+        }
+    }
+
     fn sort_array(&self) {
         let mut array = self.buffer.borrow_mut();
         array.sort_by(|a, b| {
             for (k, v) in self.order_map.iter() {
-                let a_val = a.get(k);
-                let b_val = b.get(k);
+                let a_val = Self::value_at(a, k);
+                let b_val = Self::value_at(b, k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
                         let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
-- 
2.43.0


From 8e25caec4521327984459cb9e98a511eef0c6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 23/52] fix: an upsert inserts the equality conditions of its
 filter with the whole update applied

---
 src/polodb_core/db/db_inner.rs   | 72 +++++++++++++++++++++++---------
 src/polodb_core/vm/subprogram.rs |  9 ++++
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index efd4388..44718d0 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -605,7 +605,13 @@ impl DatabaseInner {
         options: &UpdateOptions,
         txn: &TransactionInner,
     ) -> Result<UpdateResult> {
-        let meta_opt = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
+        // an upsert which matches nothing inserts, so it needs the collection anyway
+        let meta_opt = self.get_collection_meta_by_name_advanced(
+            txn,
+            col_name,
+            options.is_upsert(),
+            &self.node_id,
+        )?;
 
         let result = match &meta_opt {
             Some(col_spec) => {
@@ -639,36 +645,62 @@ impl DatabaseInner {
         Ok(result)
     }
 
-    fn merge_query_and_update(query: &Document, update: &Document) -> Result<Document> {
-        let mut doc = query.clone();
-        for (key, value) in update {
-            if key.contains("$") || key.contains(".") {
-                return Err(Error::UpsertError(key.to_string()))
-            }
-            if value.as_document().is_some() {
-                return Err(Error::UpsertError(key.to_string()))
+    /// The equality conditions of a query, which the document inserted by an upsert must fulfill
+    fn collect_equalities(query: &Document, doc: &mut Document) -> Result<()> {
+        for (key, value) in query {
+            match value {
+                Bson::Array(conditions) if key == "$and" => {
+                    for condition in conditions.iter().filter_map(Bson::as_document) {
+                        DatabaseInner::collect_equalities(condition, doc)?;
+                    }
+                }
+                _ if key.starts_with('$') => {}
+                Bson::Document(condition) => {
+                    if let Some(value) = condition.get("$eq") {
+                        DatabaseInner::set_by_path(doc, key, value)?;
+                    }
+                }
+                _ => DatabaseInner::set_by_path(doc, key, value)?,
             }
-            doc.insert(key, value);
         }
-        Ok(doc)
+        Ok(())
     }
 
-    fn upsert(&self, col_name: &str, query: &Document, update: &Document, txn: &TransactionInner) -> Result<()> {
-        // extract $set from update
-        let set = update.get("$set");
-        if set.is_none() {
-            return Ok(());
+    fn set_by_path(doc: &mut Document, path: &str, value: &Bson) -> Result<()> {
+        match path.split_once('.') {
+            Some((first, remains)) => {
+                let sub_doc = doc.entry(first.to_string()).or_insert_with(|| Document::new().into());
+                match sub_doc {
+                    Bson::Document(sub_doc) => DatabaseInner::set_by_path(sub_doc, remains, value),
+                    _ => Err(Error::UpsertError(path.to_string())),
+                }
+            }
+            None => match doc.get(path) {
+                Some(existing) if existing != value => Err(Error::UpsertError(path.to_string())),
+                _ => {
+                    doc.insert(path, value);
+                    Ok(())
+                }
+            },
         }
+    }
 
-        let set = set.unwrap();
+    fn upsert(&self, col_name: &str, query: &Document, update: &Document, txn: &TransactionInner) -> Result<()> {
+        let mut doc = Document::new();
+        DatabaseInner::collect_equalities(query, &mut doc)?;
 
-        let doc = set.as_document().ok_or(Error::SetIsNotADocument)?;
-        let merged_doc = DatabaseInner::merge_query_and_update(query, doc)?;
+        let mut value = Bson::Document(doc);
+        for operator in SubProgram::compile_update_operators(update)? {
+            operator.update(&mut value)?;
+        }
 
-        let _insert_result = self.insert_one_internal(txn, col_name, merged_doc, &self.node_id)?;
+        if let Bson::Document(doc) = value {
+            self.insert_one_internal(txn, col_name, doc, &self.node_id)?;
+        }
 
         Ok(())
     }
+
     pub fn drop_collection(&self, col_name: &str, txn: &TransactionInner) -> Result<()> {
         DatabaseInner::validate_col_name(col_name)?;
 
diff --git a/src/polodb_core/vm/subprogram.rs b/src/polodb_core/vm/subprogram.rs
index d39b949..37c8c8b 100644
--- a/src/polodb_core/vm/subprogram.rs
+++ b/src/polodb_core/vm/subprogram.rs
@@ -138,6 +138,15 @@ impl SubProgram {
         Ok(codegen.take())
     }
 
+    /// The operators of an update, to be applied to a document which is not stored yet
+    pub(crate) fn compile_update_operators(
+        update: &Document,
+    ) -> Result<Vec<Box<dyn UpdateOperator>>> {
+        let mut codegen = Codegen::new(true, true);
+        codegen.emit_update_operation(update)?;
+        Ok(codegen.take().update_operators)
+    }
+
     pub(crate) fn compile_delete(
         col_spec: &CollectionSpecification,
         col_name: &str,
-- 
2.43.0


From 3bce4648b2949d45616a0051d586531b299a3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 24/52] fix: a database could be opened twice in a process
 under two spellings of its path; a path which is not text panicked

---
 src/polodb_core/db/rocksdb_wrapper.rs | 32 ++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..654710e 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -14,11 +14,12 @@
 
 use std::ops::DerefMut;
 use std::path::{Path, PathBuf};
-use std::{env, ptr};
+use std::{env, io, ptr};
 use std::ffi::CString;
 use libc::c_char;
 use polodb_librocksdb_sys as ffi;
 use super::db::Result;
+use crate::Error;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Arc, Mutex};
 use crate::db::rocksdb_options::RocksDBWaitForCompactOptions;
@@ -38,6 +39,28 @@ macro_rules! check_err {
     };
 }
 
+/// RocksDB recognizes a database which is already open in the process by
+/// the text of its path, so all the spellings of a path have to become one.
+fn canonical_path(path: &Path) -> PathBuf {
+    if let Ok(canonical) = path.canonicalize() {
+        return canonical;
+    }
+    // it does not exist yet
+    let parent = match path.parent() {
+        Some(parent) if parent.as_os_str().is_empty() => Path::new("."),
+        Some(parent) => parent,
+        None => return path.to_path_buf(),
+    };
+    match (parent.canonicalize(), path.file_name()) {
+        (Ok(parent), Some(name)) => parent.join(name),
+        _ => path.to_path_buf(),
+    }
+}
+
+fn invalid_path(message: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidInput, message)
+}
+
 #[derive(Clone)]
 pub(crate) struct RocksDBWrapper {
     inner: Arc<Mutex<RocksDBWrapperInner>>,
@@ -74,13 +97,16 @@ unsafe impl Sync for RocksDBWrapperInner {}
 impl RocksDBWrapperInner {
 
     pub fn open(path: &Path) -> Result<RocksDBWrapperInner> {
-        let path: String = path.to_str().unwrap().into();
+        let path: String = canonical_path(path).to_str()
+            .ok_or_else(|| Error::from(invalid_path("the path is not valid UTF-8")))?
+            .into();
+        let path_c = CString::new(path.clone())
+            .map_err(|_| Error::from(invalid_path("the path contains a zero byte")))?;
         unsafe {
             let txn_db_opts = ffi::rocksdb_transactiondb_options_create();
             let options = ffi::rocksdb_options_create();
             ffi::rocksdb_options_set_create_if_missing(options, 1);
             let mut err: *mut c_char = ptr::null_mut();
-            let path_c = CString::new(path.clone()).unwrap();
             let db = ffi::rocksdb_transactiondb_open(options, txn_db_opts, path_c.as_ptr(), &mut err);
             check_err!(err);
             Ok(RocksDBWrapperInner {
-- 
2.43.0


From 809fa71589f801ef14f650c8921e77ed1d25973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 25/52] fix: the server wrote the length of the document into
 the flags of its replies

---
 src/polodb/reply.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..0dac7c0 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -26,12 +26,12 @@ pub(crate) struct Reply {
 impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
+        const FLAGS: u32 = 0;
         const SINGLE_DOC_KIND: u8 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
+        std::io::Write::write_all(&mut payload, FLAGS.to_le_bytes().as_slice()).unwrap();
         std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
 
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
 
         payload.extend_from_slice(doc.as_bytes());
 
-- 
2.43.0


From bf79c0ae428da3f466bb901c96b59bc5003680b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 26/52] fix: the reply to a find did not name the request it
 answers

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 0a1e559bcd70a9227a7462fca07e80e92684d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 27/52] fix: the server gave a new cursor the id of one which
 is still open

---
 src/polodb/app_context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..075d7e9 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,7 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        let cursor_id = self.inner.next_cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -100,6 +99,7 @@ struct AppContextInner {
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
     conn_id: AtomicU64,
+    next_cursor_id: AtomicI64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
 
@@ -111,6 +111,7 @@ impl AppContextInner {
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
             conn_id: AtomicU64::new(0),
+            next_cursor_id: AtomicI64::new(1), // 0 means no cursor
             session_ctx: Mutex::new(HashMap::new()),
         }
     }
-- 
2.43.0


From 437469f8b52e0a5955fa3d31473ad73745c191c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 28/52] fix: the server ignored the sort of a find

---
 src/polodb/handlers/find_handler.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..6e7c881 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -130,6 +130,14 @@ impl Handler for FindHandler {
             }
         });
 
+        let sort = match doc.get("sort")? {
+            Some(val) => {
+                let doc = val.as_document().ok_or(anyhow!("sort is not a document"))?;
+                Some(bson::from_slice::<bson::Document>(doc.as_bytes())?).filter(|sort| !sort.is_empty())
+            },
+            None => None,
+        };
+
         let batch_size = match doc.get("batchSize")? {
             Some(val) => {
                 val.as_i32().unwrap_or(DEFAULT_BATCH_SIZE)
@@ -149,6 +157,9 @@ impl Handler for FindHandler {
             if let Some(skip) = skip {
                 find = find.skip(skip as u64)
             };
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             find.run()?
         } else {
             let collection = db.collection::<Document>(collection_name);
@@ -159,6 +170,9 @@ impl Handler for FindHandler {
             if let Some(skip) = skip {
                 find = find.skip(skip as u64)
             };
+            if let Some(sort) = sort {
+                find = find.sort(sort)
+            };
             find.run()?
         };
         if single_batch {
-- 
2.43.0


From 7cb5a4af0c8051f652780a70da8031f042fc0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 29/52] fix: the server ignored the inline documents of an
 insert and the sequences of updates and deletes

---
 src/polodb/handlers/delete_handler.rs |  6 ++---
 src/polodb/handlers/insert_handler.rs |  8 +------
 src/polodb/handlers/update_handler.rs |  6 ++---
 src/polodb/wire/message.rs            | 33 +++++++++++++++++++++++++--
 4 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..38c45f8 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -65,13 +65,11 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes = ctx.message.get_documents("deletes")?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-        for delete_doc in deletes_arr.into_iter() {
-            let doc_ref = delete_doc?.as_document().ok_or(anyhow!("delete document is not a document"))?;
-            let doc = bson::from_slice(doc_ref.as_bytes())?;
+        for doc in deletes {
             DeleteHandler::handle_delete(ctx.app_context.clone(), &session_opt, collection_name, doc, &mut delete_result)?;
         }
 
diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..b3c0f19 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -51,13 +51,7 @@ impl Handler for InsertHandler {
 
         let db = ctx.app_context.db();
 
-        let mut batch_insert = Vec::<bson::Document>::new();
-        for doc_seq in ctx.message.document_sequences.as_slice() {
-            for doc in doc_seq.documents.as_slice() {
-                let d = bson::from_slice::<bson::Document>(doc.as_bytes())?;
-                batch_insert.push(d);
-            }
-        }
+        let batch_insert = ctx.message.get_documents("documents")?;
 
         // insert could be blocking, so we spawn a blocking task
         debug!("inserted {} documents, start_transaction: {}", batch_insert.len(), auto_commit);
diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..6d06c7e 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -65,10 +65,8 @@ impl Handler for UpdateHandler {
 
         let mut update_result = UpdateResult::default();
 
-        let updates = doc.get_array("updates")?;
-        for update in updates.into_iter() {
-            let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
-            let d = bson::from_slice::<Document>(update.as_bytes())?;
+        let updates = ctx.message.get_documents("updates")?;
+        for d in updates {
             UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..abec979 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -82,6 +82,36 @@ impl Message {
         command
     }
 
+    /// The documents of the argument `name` of the command, which are either
+    /// an array of its document or a document sequence.
+    pub(crate) fn get_documents(&self, name: &str) -> Result<Vec<Document>> {
+        let mut documents = Vec::new();
+        let mut found = false;
+
+        if let Some(value) = self.document_payload.get(name)? {
+            found = true;
+            let array = value.as_array().ok_or(anyhow!("{} is not an array", name))?;
+            for item in array {
+                let item = item?;
+                let document = item.as_document().ok_or(anyhow!("an element of {} is not a document", name))?;
+                documents.push(bson::from_slice::<Document>(document.as_bytes())?);
+            }
+        }
+
+        for sequence in self.document_sequences.iter().filter(|sequence| sequence.identifier == name) {
+            found = true;
+            for document in &sequence.documents {
+                documents.push(bson::from_slice::<Document>(document.as_bytes())?);
+            }
+        }
+
+        if !found {
+            return Err(anyhow!("{} is missing", name));
+        }
+
+        Ok(documents)
+    }
+
     /// Reads bytes from `reader` and deserializes them into a Message.
     pub(crate) async fn read_from<T: AsyncRead + Unpin + Send>(
         mut reader: T,
@@ -434,12 +464,11 @@ impl MessageSection {
         let mut identifier = Vec::<u8>::new();
         loop {
             let c: u8 = reader.read_u8_sync()?;
-            identifier.push(c);
             length_remaining -= 1;
-
             if c == 0 {
                 break;
             }
+            identifier.push(c);
         }
 
         let mut documents = Vec::new();
-- 
2.43.0


From 81ea336a5d0f6c1fccbd43b7000bf88439ba758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 30/52] fix: the server updated outside the transaction of the
 session, every document instead of one, and without upsert

---
 src/polodb/handlers/update_handler.rs | 35 +++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index 6d06c7e..b7c97a0 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -18,9 +18,9 @@ use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
+use polodb_core::options::UpdateOptions;
 use polodb_core::results::UpdateResult;
 use polodb_core::CollectionT;
-use crate::app_context::AppContext;
 use crate::reply::Reply;
 
 pub(crate) struct UpdateHandler {}
@@ -31,17 +31,22 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
-
-        let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
-        let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
+    fn handle_update<C: CollectionT<Document>>(collection: &C, statement: &Document, result: &mut UpdateResult) -> Result<()> {
+        let filter = statement.get("q").ok_or(anyhow!("update document missing q field"))?;
+        let update = statement.get("u").ok_or(anyhow!("update document missing u field"))?;
 
         let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
         let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let options = UpdateOptions::builder()
+            .upsert(statement.get_bool("upsert").unwrap_or(false))
+            .build();
+        let tmp_result = if statement.get_bool("multi").unwrap_or(false) {
+            collection.update_many_with_options(filter_doc.clone(), update_doc.clone(), options)?
+        } else {
+            collection.update_one_with_options(filter_doc.clone(), update_doc.clone(), options)?
+        };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
@@ -66,8 +71,18 @@ impl Handler for UpdateHandler {
         let mut update_result = UpdateResult::default();
 
         let updates = ctx.message.get_documents("updates")?;
-        for d in updates {
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+        if let Some(session) = &ctx.session {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not started"))?;
+            let collection = txn.collection::<Document>(collection_name);
+            for d in updates.iter() {
+                UpdateHandler::handle_update(&collection, d, &mut update_result)?;
+            }
+        } else {
+            let db = ctx.app_context.db();
+            let collection = db.collection::<Document>(collection_name);
+            for d in updates.iter() {
+                UpdateHandler::handle_update(&collection, d, &mut update_result)?;
+            }
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From 82096027e35ae8c3cfef516ddff04a647dabd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 31/52] fix: the server deleted every document a filter selects
 when it was asked for one

---
 src/polodb/handlers/delete_handler.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index 38c45f8..35af0ae 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -15,7 +15,7 @@
 use std::sync::Arc;
 use crate::handlers::{HandleContext, Handler};
 use async_trait::async_trait;
-use bson::{rawdoc, Document, RawDocumentBuf};
+use bson::{rawdoc, Bson, Document, RawDocumentBuf};
 use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
@@ -34,14 +34,28 @@ impl DeleteHandler {
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
+        let only_one = match delete_doc.get("limit") {
+            Some(Bson::Int32(limit)) => *limit == 1,
+            Some(Bson::Int64(limit)) => *limit == 1,
+            Some(Bson::Double(limit)) => *limit == 1.0,
+            _ => false,
+        };
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            if only_one {
+                collection.delete_one(filter.clone())?
+            } else {
+                collection.delete_many(filter.clone())?
+            }
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            if only_one {
+                collection.delete_one(filter.clone())?
+            } else {
+                collection.delete_many(filter.clone())?
+            }
         };
 
         result.deleted_count += tmp_result.deleted_count;
-- 
2.43.0


From 34b2ad7b455583acb37f5b867d8b27027fc0b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 32/52] fix: the server did not know abortTransaction: 1 as
 drivers send it

---
 src/polodb/handlers/abort_transaction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..aca9aa1 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,13 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => {
+                match r {
+                    bson::RawBsonRef::Int32(i) => Ok(i == 1),
+                    bson::RawBsonRef::Int64(i) => Ok(i == 1),
+                    _ => Ok(false),
+                }
+            },
             None => Ok(false),
         }
     }
-- 
2.43.0


From 299069ea659bf4251f9325dea9e26a5ac006e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 33/52] fix: the server closed the connection instead of
 answering a command whose session arguments are wrong

---
 src/polodb/main.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..4c3f110 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -192,6 +192,22 @@ async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext
 }
 
 async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, stream: &mut W, message: wire::Message) -> Result<()> {
+    let reply = match run_command(ctx, conn_id, &message).await {
+        Ok(reply) => reply,
+        Err(e) => {
+            log::error!("handler error: {:?}", e);
+            let doc = rawdoc! {
+                "ok": 0,
+                "errmsg": e.to_string(),
+                "code": 1,
+            };
+            Reply::new(message.request_id.unwrap(), doc)
+        }
+    };
+    reply.write_to(stream).await
+}
+
+async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) -> Result<Reply> {
     let handler = ctx.get_handlers(&message.document_payload)?;
     if let Some(handler) = handler {
         let start_transaction = utils::truly_value_for_bson_ref(message.document_payload.get("startTransaction")?, false);
@@ -222,36 +238,19 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-            message: &message,
+            message,
             session,
             auto_commit,
         };
-        let reply_result = handler.handle(&ctx).await;
-        match reply_result {
-            Ok(reply) => {
-                reply.write_to(stream).await?;
-            }
-            Err(e) => {
-                log::error!("handler error: {:?}", e);
-                let doc = rawdoc! {
-                    "ok": 0,
-                    "errmsg": e.to_string(),
-                    "code": 1,
-                };
-                let reply = Reply::new(message.request_id.unwrap(), doc);
-                reply.write_to(stream).await?;
-            }
-        }
+        handler.handle(&ctx).await
     } else {
         log::error!("no handler found for message: {:?}", message);
         let doc = rawdoc! {
             "ok": 0,
             "errmsg": "no handler found",
         };
-        let reply = Reply::new(message.request_id.unwrap(), doc);
-        reply.write_to(stream).await?;
+        Ok(Reply::new(message.request_id.unwrap(), doc))
     }
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From b84c2a3fd6900cfa8e549848ada39d422c792fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 34/52] fix: a session was of no use after its first
 transaction, and statements of a transaction nobody began took effect

---
 src/polodb/handlers/commit_transaction.rs | 1 +
 src/polodb/main.rs                        | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 4c3f110..42b6b65 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -235,6 +235,12 @@ async fn run_command(ctx: AppContext, conn_id: u64, message: &wire::Message) ->
         };
         let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
 
+        // a session whose transaction is over serves statements outside of transactions
+        let session = session.filter(|session| session.get_transaction().is_some());
+        if session.is_none() && !auto_commit {
+            return Err(anyhow!("transaction not started"));
+        }
+
         let ctx = HandleContext {
             app_context: ctx.clone(),
             conn_id,
-- 
2.43.0


From 91c2b0fe4f5773545d0c0a0850fee6ddaf726db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 35/52] fix: the server refused messages it had said it
 accepts, and answered messages which want no reply

---
 src/polodb/main.rs     | 7 ++++++-
 src/polodb/wire/mod.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 42b6b65..3a2b5d2 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -179,7 +179,8 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
     Ok((addr, fut))
 }
 
-const MAX_MESSAGE_SIZE: usize = 16 * 1024 * 1024;
+// the maxMessageSizeBytes of the hello reply
+const MAX_MESSAGE_SIZE: usize = 48000000;
 
 async fn handle_stream<W: AsyncWrite + AsyncRead + Unpin + Send>(ctx: AppContext, conn_id: u64, mut stream: W) -> Result<()> {
     loop {
@@ -204,6 +205,10 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
             Reply::new(message.request_id.unwrap(), doc)
         }
     };
+    if message.flags.contains(wire::MessageFlags::MORE_TO_COME) {
+        // the client does not wait for a reply
+        return Ok(());
+    }
     reply.write_to(stream).await
 }
 
diff --git a/src/polodb/wire/mod.rs b/src/polodb/wire/mod.rs
index 9bb7873..289532c 100644
--- a/src/polodb/wire/mod.rs
+++ b/src/polodb/wire/mod.rs
@@ -5,5 +5,5 @@ mod util;
 
 pub(crate) use util::next_request_id;
 pub(crate) use header::{Header, OpCode};
-pub(crate) use message::Message;
+pub(crate) use message::{Message, MessageFlags};
 
-- 
2.43.0


From 8e0b4286e4d2f1b19085be0f4e9b88c9dbc9bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 36/52] fix: one failing accept ended the server for good

---
 src/polodb/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a2b5d2..0bf4a1f 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -167,8 +167,9 @@ pub(crate) async fn start_socket_server(path: String, socket: String, token: Can
                             });
                         }
                         Err(err) => {
+                            // too many open files, for example: the next connection may be accepted
                             warn!("accept error: {:?}", err);
-                            return
+                            tokio::time::sleep(std::time::Duration::from_millis(10)).await;
                         }
                     }
                 }
-- 
2.43.0


From cefccf6f40be8a58e8a5b2e94cdfcc7b0535770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 37/52] fix: a length claimed inside a message made the server
 reserve as much memory, or panic

---
 src/polodb/bson_util.rs    | 8 +++++++-
 src/polodb/wire/message.rs | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..d551cdb 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -148,11 +148,17 @@ fn num_decimal_digits(mut n: usize) -> usize {
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
+    if length < 5 {
+        return Err(anyhow!("invalid length of a document: {}", length));
+    }
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
+    if bytes.len() != length as usize {
+        return Err(anyhow!("a document of {} bytes has only {}", length, bytes.len()));
+    }
 
     Ok(bytes)
 }
diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index abec979..02d1375 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -452,8 +452,11 @@ impl MessageSection {
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-        let mut remain_buffer = vec![0u8; length_remaining.get()?];
-        reader.read_exact(&mut remain_buffer)?;
+        let mut remain_buffer = Vec::new();
+        reader.take(length_remaining.get()? as u64).read_to_end(&mut remain_buffer)?;
+        if remain_buffer.len() != length_remaining.get()? {
+            return Err(anyhow!("a section of {} bytes is incomplete", size));
+        }
 
         let mut buf_slice = remain_buffer.as_slice();
         let reader = &mut buf_slice;
-- 
2.43.0


From ee3974dc1105685bb34283e9f0b3452cc46e7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 38/52] fix: a Python integer beyond 64 bits was stored as
 another number

---
 py-polodb/src/helper_type_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3574c77..758d3e2 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -2,7 +2,7 @@ use polodb_core::bson::{Bson, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
-use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
+use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyInt, PyList, PyString};
 use pyo3::IntoPyObjectExt;
 
 pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<Vec<Document>> {
@@ -33,6 +33,9 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
+    } else if py_obj.is_instance_of::<PyInt>() {
+        // an integer which does not fit is an OverflowError, not another number
+        Ok(Bson::Int64(py_obj.extract::<i64>()?))
     } else if let Ok(rust_int) = py_obj.extract::<i64>() {
         Ok(Bson::Int64(rust_int))
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
-- 
2.43.0


From 0cdc3c8357d569227f4274579dac182e8d661fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 39/52] fix: None and bytes, which the Python binding returns,
 could not be stored or searched

---
 py-polodb/src/helper_type_translator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 758d3e2..ff671b9 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,4 +1,5 @@
-use polodb_core::bson::{Bson, Document};
+use polodb_core::bson::spec::BinarySubtype;
+use polodb_core::bson::{Binary, Bson, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
@@ -29,8 +30,15 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
 }
 
 pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
-    if let Ok(rust_string) = py_obj.extract::<String>() {
+    if py_obj.is_none() {
+        Ok(Bson::Null)
+    } else if let Ok(rust_string) = py_obj.extract::<String>() {
         Ok(Bson::String(rust_string))
+    } else if let Ok(bytes) = py_obj.cast::<PyBytes>() {
+        Ok(Bson::Binary(Binary {
+            subtype: BinarySubtype::Generic,
+            bytes: bytes.as_bytes().to_vec(),
+        }))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
     } else if py_obj.is_instance_of::<PyInt>() {
-- 
2.43.0


From b5a7404d6bc62b7ce68982a4821d32afef428337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 40/52] fix: an error while the documents of a query are read
 panicked in the Python binding

---
 py-polodb/src/py_database.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 160142f..92cfe6e 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -144,8 +144,13 @@ impl PyCollection {
         match self.inner.aggregate(pipeline_documents).run() {
             Ok(agg_cursor) => {
                 let vec_res: Vec<Py<PyDict>> = agg_cursor
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                    .map(|x| {
+                        let doc = x.map_err(|e| {
+                            PyRuntimeError::new_err(format!("Error in Aggregate {}", e))
+                        })?;
+                        document_to_pydict(py, doc)
+                    })
+                    .collect::<PyResult<_>>()?;
                 vec_res.into_py_any(py)
             }
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -181,8 +186,12 @@ impl PyCollection {
             Ok(result_doc) => {
                 // Convert BSON Document to Python Dict
                 let py_result: Vec<Py<PyDict>> = result_doc
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                    .map(|x| {
+                        let doc = x
+                            .map_err(|e| PyRuntimeError::new_err(format!("Find error: {}", e)))?;
+                        document_to_pydict(py, doc)
+                    })
+                    .collect::<PyResult<_>>()?;
                 // let py_result = document_to_pydict(py, result_doc).unwrap();
                 Ok(Some(py_result.into_py_any(py)?))
             }
-- 
2.43.0


From aa8cd842d870c595eddc978d445acbcc6504fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 41/52] fix: the Python binding dropped the error of a failing
 create_collection

---
 py-polodb/src/py_database.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 92cfe6e..c136540 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -240,8 +240,11 @@ impl PyDatabase {
     }
 
     pub fn create_collection(&self, name: &str) -> PyResult<()> {
-        let _ = self.inner.lock().unwrap().create_collection(name);
-        Ok(())
+        self.inner
+            .lock()
+            .unwrap()
+            .create_collection(name)
+            .map_err(|e| PyRuntimeError::new_err(format!("Create collection error: {}", e)))
     }
 
     fn collection(&self, name: &str) -> PyResult<PyCollection> {
-- 
2.43.0


From 67fd4f29bc9775432556e8cc9942432db3fbd609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 42/52] fix: a Python with statement opened the database a
 second time, which fails, and never closed it

---
 py-polodb/polodb/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py-polodb/polodb/core.py b/py-polodb/polodb/core.py
index e0de4ec..98ed651 100644
--- a/py-polodb/polodb/core.py
+++ b/py-polodb/polodb/core.py
@@ -9,11 +9,10 @@ class PoloDB:
         self.__rust_db = PyDatabase(self._path)
 
     def __enter__(self):
-        self.__rust_db = PyDatabase(self._path)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        pass
+        self.__rust_db = None
 
     def __getitem__(self, name):
         return self.collection(name)
-- 
2.43.0


From e689230e783dd587ec80ebd018d169a4b8737079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 43/52] fix: a deeply nested document overflowed the stack of
 the server, which ended it for everybody

---
 src/polodb/bson_util.rs | 21 +++++++++++++++++++++
 src/polodb/main.rs      | 16 ++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index d551cdb..3ad1089 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -20,6 +20,7 @@ use bson:: {
     RawArrayBuf,
     RawBson,
     RawBsonRef,
+    RawDocument,
     RawDocumentBuf,
 };
 
@@ -145,6 +146,25 @@ fn num_decimal_digits(mut n: usize) -> usize {
     }
 }
 
+/// The deepest nesting of documents and arrays which is accepted from a client
+const MAX_DOCUMENT_DEPTH: usize = 200;
+
+fn check_depth(doc: &RawDocument, depth: usize) -> Result<()> {
+    if depth == 0 {
+        return Err(anyhow!("a document is nested more than {} levels deep", MAX_DOCUMENT_DEPTH));
+    }
+    // what is malformed is left to the command which reads it
+    for (_, value) in doc.iter().map_while(|item| item.ok()) {
+        match value {
+            RawBsonRef::Document(inner) => check_depth(inner, depth - 1)?,
+            RawBsonRef::Array(inner) => check_depth(RawDocument::from_bytes(inner.as_bytes())?, depth - 1)?,
+            RawBsonRef::JavaScriptCodeWithScope(inner) => check_depth(inner.scope, depth - 1)?,
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
@@ -159,6 +179,7 @@ pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     if bytes.len() != length as usize {
         return Err(anyhow!("a document of {} bytes has only {}", length, bytes.len()));
     }
+    check_depth(RawDocument::from_bytes(&bytes)?, MAX_DOCUMENT_DEPTH)?;
 
     Ok(bytes)
 }
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 0bf4a1f..e500ebb 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -54,9 +54,21 @@ use crate::app_context::AppContext;
 use crate::handlers::{make_handlers, HandleContext};
 use crate::utils::uuid_from_bson;
 
-#[tokio::main]
-async fn main() {
+/// Documents are processed by recursion: enough for the deepest ones which are accepted.
+const THREAD_STACK_SIZE: usize = 8 * 1024 * 1024;
+
+fn main() {
     env_logger::init();
+
+    tokio::runtime::Builder::new_multi_thread()
+        .enable_all()
+        .thread_stack_size(THREAD_STACK_SIZE)
+        .build()
+        .unwrap()
+        .block_on(run());
+}
+
+async fn run() {
     let version = Database::get_version();
     let app = App::new("PoloDB")
         .version(version)
-- 
2.43.0


From c9541b165a5f7aa93eeaacc1eec40287fe89bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 44/52] fix: a Python database can be entered again, and two
 threads can ask for the same new collection

---
 py-polodb/polodb/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py-polodb/polodb/core.py b/py-polodb/polodb/core.py
index 98ed651..e9b3e58 100644
--- a/py-polodb/polodb/core.py
+++ b/py-polodb/polodb/core.py
@@ -9,6 +9,8 @@ class PoloDB:
         self.__rust_db = PyDatabase(self._path)
 
     def __enter__(self):
+        if self.__rust_db is None:
+            self.__rust_db = PyDatabase(self._path)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -22,7 +24,12 @@ class PoloDB:
 
     def collection(self, name):
         if name not in self.list_collection_names():
-            self.__rust_db.create_collection(name)
+            try:
+                self.__rust_db.create_collection(name)
+            except RuntimeError:
+                # another thread may have created it meanwhile
+                if name not in self.list_collection_names():
+                    raise
         return Collection(self.__rust_db.collection(name))
 
     def list_collection_names(self):
-- 
2.43.0


From e479600418c8a592e80ef12d43c3e3e8b8592b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 45/52] fix: reading a datetime or a regular expression
 panicked in the Python binding, and a datetime could not be stored

---
 py-polodb/src/helper_type_translator.rs | 81 +++++++++++++++++++------
 py-polodb/src/py_database.rs            | 12 ++--
 2 files changed, 70 insertions(+), 23 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index ff671b9..6cf1d84 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,9 +1,9 @@
 use polodb_core::bson::spec::BinarySubtype;
-use polodb_core::bson::{Binary, Bson, Document};
+use polodb_core::bson::{Binary, Bson, DateTime, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
-use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyInt, PyList, PyString};
+use pyo3::types::{PyAny, PyBool, PyBytes, PyDateTime, PyFloat, PyInt, PyList, PyString};
 use pyo3::IntoPyObjectExt;
 
 pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<Vec<Document>> {
@@ -41,6 +41,8 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         }))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
+    } else if py_obj.is_instance_of::<PyDateTime>() {
+        convert_py_datetime_to_bson(py_obj)
     } else if py_obj.is_instance_of::<PyInt>() {
         // an integer which does not fit is an OverflowError, not another number
         Ok(Bson::Int64(py_obj.extract::<i64>()?))
@@ -96,17 +98,17 @@ pub fn update_result_to_pydict(
 pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>> {
     let py_dict = PyDict::new(py);
     for (key, value) in doc {
-        let py_value = bson_to_py_obj(py, &value);
+        let py_value = bson_to_py_obj(py, &value)?;
         py_dict.set_item(key, py_value)?;
     }
     Ok(py_dict.into())
 }
 
-pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
-    match bson {
+pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    let py_obj = match bson {
         Bson::Null => py.None(),
-        Bson::Int32(i) => i.into_py_any(py).unwrap(),
-        Bson::Int64(i) => i.into_py_any(py).unwrap(),
+        Bson::Int32(i) => i.into_py_any(py)?,
+        Bson::Int64(i) => i.into_py_any(py)?,
         Bson::Double(f) => PyFloat::new(py, *f).into_any().unbind(),
         Bson::String(s) => PyString::new(py, s).into_any().unbind(),
         Bson::Boolean(b) => PyBool::new(py, *b).to_owned().into_any().unbind(),
@@ -114,34 +116,50 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)).unwrap();
+                py_list.append(bson_to_py_obj(py, item)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)).unwrap();
+                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
             }
             py_dict.into_any().unbind()
         }
         Bson::RegularExpression(regex) => {
-            let re_module = py.import("re").unwrap();
+            let re_module = py.import("re")?;
+            let mut flags = 0;
+            for option in regex.options.chars() {
+                let flag = match option {
+                    'i' => "IGNORECASE",
+                    'm' => "MULTILINE",
+                    's' => "DOTALL",
+                    'x' => "VERBOSE",
+                    _ => continue,
+                };
+                flags |= re_module.getattr(flag)?.extract::<i32>()?;
+            }
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))
-                .unwrap()
+                .call_method1("compile", (regex.pattern.as_str(), flags))?
                 .into_any()
                 .unbind()
         }
         // Handle JavaScript code
         Bson::JavaScriptCode(code) => PyString::new(py, code).into_any().unbind(),
-        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py).unwrap(),
+        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py)?,
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
-            let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime").unwrap().getattr("datetime").unwrap();
-            datetime.call1((timestamp,)).unwrap().into_any().unbind()
+            let millis = dt.timestamp_millis();
+            let datetime = py.import("datetime")?;
+            let delta = datetime.getattr("timedelta")?.call1((
+                millis.div_euclid(86_400_000),
+                0,
+                0,
+                millis.rem_euclid(86_400_000),
+            ))?;
+            epoch(py)?.add(delta)?.unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -155,5 +173,34 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::MinKey => py.None(),
 
         _ => py.None(), // Handle other BSON types as needed
-    }
+    };
+    Ok(py_obj)
+}
+
+/// 1970-01-01T00:00:00Z as a datetime with a time zone
+fn epoch(py: Python<'_>) -> PyResult<Bound<'_, PyAny>> {
+    let datetime = py.import("datetime")?;
+    let utc = datetime.getattr("timezone")?.getattr("utc")?;
+    datetime
+        .getattr("datetime")?
+        .call1((1970, 1, 1, 0, 0, 0, 0, utc))
+}
+
+/// A datetime without a time zone is one in UTC.
+fn convert_py_datetime_to_bson(value: &Bound<'_, PyAny>) -> PyResult<Bson> {
+    let py = value.py();
+    let epoch = epoch(py)?;
+    let value = if value.getattr("tzinfo")?.is_none() {
+        let kwargs = PyDict::new(py);
+        kwargs.set_item("tzinfo", epoch.getattr("tzinfo")?)?;
+        value.call_method("replace", (), Some(&kwargs))?
+    } else {
+        value.clone()
+    };
+    let millisecond = py
+        .import("datetime")?
+        .getattr("timedelta")?
+        .call1((0, 0, 1000))?;
+    let millis = value.sub(epoch)?.floor_div(millisecond)?.extract::<i64>()?;
+    Ok(Bson::DateTime(DateTime::from_millis(millis)))
 }
diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index c136540..292fe56 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -38,7 +38,7 @@ impl PyCollection {
         match self.inner.update_one(filter_doc, update_doc) {
             Ok(update_result) => {
                 // Convert BSON Document to Python Dict
-                let py_result = update_result_to_pydict(py, update_result).unwrap();
+                let py_result = update_result_to_pydict(py, update_result)?;
                 Ok(Some(py_result.into_any()))
             }
             Err(err) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -61,7 +61,7 @@ impl PyCollection {
         match self.inner.update_many(filter_doc, update_doc) {
             Ok(update_result) => {
                 // Convert BSON Document to Python Dict
-                let py_result = update_result_to_pydict(py, update_result).unwrap();
+                let py_result = update_result_to_pydict(py, update_result)?;
                 Ok(Some(py_result.into_any()))
             }
             Err(err) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -76,7 +76,7 @@ impl PyCollection {
             Ok(result) => {
                 let dict = PyDict::new(py);
                 for (key, value) in &result.inserted_ids {
-                    dict.set_item(key, bson_to_py_obj(py, value))?;
+                    dict.set_item(key, bson_to_py_obj(py, value)?)?;
                 }
                 Ok(dict.into_any().unbind())
             }
@@ -101,7 +101,7 @@ impl PyCollection {
         };
         match self.inner.insert_one(bson_doc) {
             Ok(result) => {
-                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id);
+                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id)?;
                 let dict = PyDict::new(py);
                 dict.set_item("inserted_id", py_inserted_id)?;
                 Ok(dict.into_any().unbind())
@@ -167,7 +167,7 @@ impl PyCollection {
         match self.inner.find_one(filter_doc) {
             Ok(Some(result_doc)) => {
                 // Convert BSON Document to Python Dict
-                let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_any()))
             }
             Ok(None) => Ok(None), // Return None if no document is found
@@ -192,7 +192,7 @@ impl PyCollection {
                         document_to_pydict(py, doc)
                     })
                     .collect::<PyResult<_>>()?;
-                // let py_result = document_to_pydict(py, result_doc).unwrap();
+                // let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_py_any(py)?))
             }
             // Ok(None) => Ok(None), // Return None if no document is found
-- 
2.43.0


From 15bc6e943d5b63ef676bf4021bddfa22d4b9d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 46/52] fix: deeply nested values, and a dict which contains
 itself, overflowed the stack of the Python binding

---
 py-polodb/src/helper_type_translator.rs | 32 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 6cf1d84..d9a073a 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -1,6 +1,7 @@
 use polodb_core::bson::spec::BinarySubtype;
 use polodb_core::bson::{Binary, Bson, DateTime, Document};
 use polodb_core::results;
+use pyo3::exceptions::PyRecursionError;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
 use pyo3::types::{PyAny, PyBool, PyBytes, PyDateTime, PyFloat, PyInt, PyList, PyString};
@@ -30,6 +31,24 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
 }
 
 pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
+    convert_nested_py_obj_to_bson(py_obj, 1)
+}
+
+/// The deepest nesting of dicts and lists: both directions are recursive, and a dict may contain itself.
+const MAX_DEPTH: usize = 200;
+
+fn check_depth(depth: usize) -> PyResult<()> {
+    if depth > MAX_DEPTH {
+        return Err(PyRecursionError::new_err(format!(
+            "values are nested more than {} levels deep",
+            MAX_DEPTH
+        )));
+    }
+    Ok(())
+}
+
+fn convert_nested_py_obj_to_bson(py_obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<Bson> {
+    check_depth(depth)?;
     if py_obj.is_none() {
         Ok(Bson::Null)
     } else if let Ok(rust_string) = py_obj.extract::<String>() {
@@ -54,14 +73,14 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         let mut bson_doc = Document::new();
         for (key, value) in dict.iter() {
             let key_str: String = key.extract::<String>()?;
-            let bson_value = convert_py_obj_to_bson(&value)?;
+            let bson_value = convert_nested_py_obj_to_bson(&value, depth + 1)?;
             bson_doc.insert(key_str, bson_value);
         }
         Ok(Bson::Document(bson_doc))
     } else if let Ok(list) = py_obj.cast::<PyList>() {
         let mut bson_array = Vec::new();
         for item in list.iter() {
-            bson_array.push(convert_py_obj_to_bson(&item)?);
+            bson_array.push(convert_nested_py_obj_to_bson(&item, depth + 1)?);
         }
         Ok(Bson::Array(bson_array))
     } else {
@@ -105,6 +124,11 @@ pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>>
 }
 
 pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    nested_bson_to_py_obj(py, bson, 1)
+}
+
+fn nested_bson_to_py_obj(py: Python<'_>, bson: &Bson, depth: usize) -> PyResult<Py<PyAny>> {
+    check_depth(depth)?;
     let py_obj = match bson {
         Bson::Null => py.None(),
         Bson::Int32(i) => i.into_py_any(py)?,
@@ -116,14 +140,14 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)?)?;
+                py_list.append(nested_bson_to_py_obj(py, item, depth + 1)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
+                py_dict.set_item(key, nested_bson_to_py_obj(py, value, depth + 1)?)?;
             }
             py_dict.into_any().unbind()
         }
-- 
2.43.0


From 6dc83c640a6d611d9a3a2237bdaefb3d82b6fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 47/52] fix: lines inserted or deleted before the first common
 line were missing from the line diff

---
 src/polodb_line_diff/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 02b371a..d32403e 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -84,10 +84,12 @@ pub fn diff(a: &str, b: &str, splitter: &str) -> Vec<Diff> {
 
     for (i, item) in matrix.iter_mut().enumerate().take(a_lines.len() + 1) {
         item[0].distance = i;
+        item[0].op = DiffOp::Delete;
     }
 
     for j in 0..=b_lines.len() {
         matrix[0][j].distance = j;
+        matrix[0][j].op = DiffOp::Insert;
     }
 
     for i in 1..=a_lines.len() {
@@ -183,7 +185,7 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
-    while i > 0 && j > 0 {
+    while i > 0 || j > 0 {
         match matrix[i][j].op {
             DiffOp::Preserve => {
                 i -= 1;
-- 
2.43.0


From 61b0b5c2f9765370b0320598b745dc66d7b4694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 48/52] fix: the line diff showed the lines of a replacement
 the wrong way round

---
 src/polodb_line_diff/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index d32403e..e844399 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -193,8 +193,8 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
             }
 
             DiffOp::Replace => {
-                let in_line = Line::new(i - 1,a_lines[i - 1].into());
-                let de_line = Line::new(j - 1, b_lines[j - 1].into());
+                let in_line = Line::new(j - 1, b_lines[j - 1].into());
+                let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
                     if last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
-- 
2.43.0


From 28c64b1b7a6335043e5f032a7d7fe55ed2c1356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 49/52] fix: the line diff joined differences with common lines
 between them

---
 src/polodb_line_diff/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index e844399..a3b0cf2 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -185,9 +185,12 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
+    // does the last difference end where the next one begins?
+    let mut adjacent = false;
     while i > 0 || j > 0 {
         match matrix[i][j].op {
             DiffOp::Preserve => {
+                adjacent = false;
                 i -= 1;
                 j -= 1;
             }
@@ -196,7 +199,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Replace {
+                    if adjacent && last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
                         last.de_lines.push_front(de_line);
 
@@ -205,6 +208,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                         continue
                     }
                 }
+                adjacent = true;
                 result.push(Diff {
                     op: DiffOp::Replace,
                     in_lines: {
@@ -227,13 +231,14 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Insert {
+                    if adjacent && last.op == DiffOp::Insert {
                         last.in_lines.push_front(in_line);
                         j -= 1;
                         continue;
                     }
                 }
 
+                adjacent = true;
                 result.push(Diff {
                     op: DiffOp::Insert,
                     in_lines: {
@@ -251,13 +256,14 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Delete {
+                    if adjacent && last.op == DiffOp::Delete {
                         last.de_lines.push_front(de_line);
                         i -= 1;
                         continue;
                     }
                 }
 
+                adjacent = true;
                 result.push(Diff {
                     op: DiffOp::Delete,
                     in_lines: LinkedList::new(),
-- 
2.43.0


From 83f51b899051c87d8a83cdca68b95cfb8c7aafc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 50/52] fix: a malformed query on a collection which does not
 exist was accepted

---
 src/polodb_core/db/db_inner.rs   | 96 +++++++++++++++-----------------
 src/polodb_core/vm/subprogram.rs |  8 ---
 2 files changed, 44 insertions(+), 60 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44718d0..b4521f2 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -613,30 +613,26 @@ impl DatabaseInner {
             &self.node_id,
         )?;
 
-        let result = match &meta_opt {
-            Some(col_spec) => {
-                let subprogram = SubProgram::compile_update(
-                    col_spec,
-                    query,
-                    update,
-                    true,
-                    is_many,
-                )?;
-
-                let mut vm = VM::new(
-                    txn.clone(),
-                    subprogram,
-                    self.metrics.clone(),
-                );
-                vm.execute()?;
-
-                // vm.r2 as u64
-                UpdateResult {
-                    matched_count: vm.r2 as u64,
-                    modified_count: vm.r4 as u64,
-                }
-            },
-            None => UpdateResult::default(),
+        let col_spec = meta_opt.unwrap_or_else(|| self.absent_collection(col_name));
+        let subprogram = SubProgram::compile_update(
+            &col_spec,
+            query,
+            update,
+            true,
+            is_many,
+        )?;
+
+        let mut vm = VM::new(
+            txn.clone(),
+            subprogram,
+            self.metrics.clone(),
+        );
+        vm.execute()?;
+
+        // vm.r2 as u64
+        let result = UpdateResult {
+            matched_count: vm.r2 as u64,
+            modified_count: vm.r4 as u64,
         };
         if options.is_upsert() && result.matched_count == 0 {
             self.upsert(col_name, query, update, txn)?;
@@ -766,11 +762,9 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: &Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
-        if col_spec.is_none() {
-            return Ok(0);
-        }
-        let col_spec = col_spec.unwrap();
+        let col_spec = self
+            .get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?
+            .unwrap_or_else(|| self.absent_collection(col_name));
 
         let subprogram = SubProgram::compile_delete(
             &col_spec,
@@ -900,6 +894,12 @@ impl DatabaseInner {
         Ok(result)
     }
 
+    /// Stands for a collection which does not exist: it has no documents and no indexes,
+    /// but a query on it must still be well-formed.
+    fn absent_collection(&self, col_name: &str) -> CollectionSpecification {
+        CollectionSpecification::new(col_name.to_string(), uuid::Uuid::now_v1(&self.node_id))
+    }
+
     pub fn find_with_owned_session<T: DeserializeOwned + Send + Sync>(
         &self,
         col_name: &str,
@@ -913,19 +913,15 @@ impl DatabaseInner {
             col_name,
             &txn,
         )?;
-        let subprogram = match meta_opt {
-            Some(col_spec) => {
-                match filter_query {
-                    Some(query) => SubProgram::compile_query(
-                        &col_spec,
-                        &query,
-                        true
-                    ),
-                    None => SubProgram::compile_query_all(&col_spec, true),
-                }?
-            }
-            None => SubProgram::compile_empty_query(),
-        };
+        let col_spec = meta_opt.unwrap_or_else(|| self.absent_collection(col_name));
+        let subprogram = match filter_query {
+            Some(query) => SubProgram::compile_query(
+                &col_spec,
+                &query,
+                true
+            ),
+            None => SubProgram::compile_query_all(&col_spec, true),
+        }?;
 
         let vm = VM::new(
             txn,
@@ -1002,16 +998,12 @@ impl DatabaseInner {
         DatabaseInner::validate_col_name(col_name)?;
         let txn = txn.at_snapshot();
         let meta_opt = self.get_collection_meta_by_name_advanced_auto(col_name, &txn)?;
-        let subprogram = match meta_opt {
-            Some(col_spec) => {
-                SubProgram::compile_aggregate(
-                    &col_spec,
-                    pipeline,
-                    true
-                )?
-            }
-            None => SubProgram::compile_empty_query(),
-        };
+        let col_spec = meta_opt.unwrap_or_else(|| self.absent_collection(col_name));
+        let subprogram = SubProgram::compile_aggregate(
+            &col_spec,
+            pipeline,
+            true
+        )?;
 
         let vm = VM::new(
             txn,
diff --git a/src/polodb_core/vm/subprogram.rs b/src/polodb_core/vm/subprogram.rs
index 37c8c8b..7e7c150 100644
--- a/src/polodb_core/vm/subprogram.rs
+++ b/src/polodb_core/vm/subprogram.rs
@@ -59,14 +59,6 @@ impl SubProgram {
         }
     }
 
-    pub(crate) fn compile_empty_query() -> SubProgram {
-        let mut codegen = Codegen::new(true, false);
-
-        codegen.emit(DbOp::Halt);
-
-        codegen.take()
-    }
-
     pub(crate) fn compile_query(
         col_spec: &CollectionSpecification,
         query: &Document,
-- 
2.43.0


From 3a41a871385e613ab69b079dcf8e8c019ef101dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 51/52] fix: creating an index under the name of a different
 one was silently ignored

---
 src/polodb_core/db/db_inner.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index b4521f2..6657272 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -271,15 +271,21 @@ impl DatabaseInner {
             }
         };
 
-        if collection_spec.indexes.get(&index_name).is_some() {
-            return Ok(())
-        }
-
         let index_info = IndexInfo::single_index(
             key.to_string(),
             1,
             options.cloned(),
         );
+
+        if let Some(existing) = collection_spec.indexes.get(&index_name) {
+            if existing.keys != index_info.keys || existing.is_unique() != index_info.is_unique() {
+                return Err(Error::ValidationError(
+                    format!("an index named {} exists with other keys or options", index_name),
+                ));
+            }
+            return Ok(())
+        }
+
         collection_spec.indexes.insert(index_name.clone(), index_info.clone());
 
         DatabaseInner::update_collection_spec(
-- 
2.43.0


From 4172ab8bc84e5e311d7db31386c89156b3992b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 52/52] fix: the server took a limit or skip given as a double
 for zero

---
 src/polodb/handlers/find_handler.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 6e7c881..6be92cd 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -116,19 +116,21 @@ impl Handler for FindHandler {
 
         let limit = doc.get("limit")?.map( |val| {
             match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
+                RawBsonRef::Int32(val) => Ok(val as i64),
+                RawBsonRef::Int64(val) => Ok(val),
+                RawBsonRef::Double(val) if val.fract() == 0.0 => Ok(val as i64),
+                _ => Err(anyhow!("limit is not an integer")),
             }
-        });
+        }).transpose()?;
 
         let skip = doc.get("skip")?.map( |val| {
             match val {
-                RawBsonRef::Int32(val) => val as i64,
-                RawBsonRef::Int64(val) => val,
-                _ => 0,
+                RawBsonRef::Int32(val) => Ok(val as i64),
+                RawBsonRef::Int64(val) => Ok(val),
+                RawBsonRef::Double(val) if val.fract() == 0.0 => Ok(val as i64),
+                _ => Err(anyhow!("skip is not an integer")),
             }
-        });
+        }).transpose()?;
 
         let sort = match doc.get("sort")? {
             Some(val) => {
-- 
2.43.0

