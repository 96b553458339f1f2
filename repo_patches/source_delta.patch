From 47a9ff1dd27594b2259334404d355c0ccad30a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/26] fix: clamp slice bounds according to the direction of
 the step

---
 crates/jsonpath_rfc9535_iter/src/selector.rs              | 6 +++---
 crates/jsonpath_rfc9535_locations/src/selector.rs         | 4 ++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                  | 6 +++---
 crates/jsonpath_rfc9535_singular_selector/src/selector.rs | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..7375362 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -74,9 +74,9 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, if n_step < 0 { array_length - 1 } else { array_length })
             }
         }
         None => {
@@ -124,7 +124,7 @@ pub fn slice<'a>(
 }
 
 pub fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..645a118 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,9 +149,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..d2031c3 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -705,9 +705,9 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, if n_step < 0 { array_length - 1 } else { array_length })
             }
         }
         None => {
@@ -875,7 +875,7 @@ fn unpack_result<'a>(
 }
 
 fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..7455976 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,9 +186,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
-- 
2.43.0


From 5e790367687bba2a1c10bfd099cf27fb454b8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/26] fix: resolve '$' in nested filters to the document root

---
 crates/jsonpath_rfc9535_iter/src/filter.rs          |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs            | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs     |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs      | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs            | 13 ++++++++++---
 .../src/filter.rs                                   |  2 +-
 .../jsonpath_rfc9535_singular_selector/src/query.rs | 12 +++++++++++-
 7 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..40164bc 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::new_from(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..e36e595 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::new_from(env, root, root, query)
+    }
+
+    /// Iterate nodes starting at `value`, a value in the document with root `root`.
+    pub(crate) fn new_from(
+        env: &'static Environment,
+        root: &'v Value,
+        value: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..26e164e 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..73c3f68 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Apply this query starting at `value`, a value in the document with root `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index d2031c3..c2af714 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -107,8 +107,15 @@ impl Query {
         value: &'a Value,
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
-        let context = QueryContext { root: value, env };
+        self.find_from(value, &QueryContext { root: value, env })
+    }
 
+    // Apply this query starting at `value`, with `context.root` being the root of the document.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -117,7 +124,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -583,7 +590,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
                 query.find(context.root, context.env)?,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..26e164e 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..73c3f68 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Apply this query starting at `value`, a value in the document with root `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From 61557252c1b4c2467c5b8e50ddeddb9ad2ae620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/26] fix: compare unsigned integers and mixed number
 representations exactly

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 55 +++++++++++++------
 .../jsonpath_rfc9535_locations/src/filter.rs  | 52 +++++++++++++-----
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 55 +++++++++++++------
 .../src/filter.rs                             | 52 +++++++++++++-----
 4 files changed, 152 insertions(+), 62 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 40164bc..a2c7e05 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{cmp::Ordering, fmt};
 
 use serde_json::Value;
 
@@ -234,11 +234,12 @@ impl fmt::Display for ComparisonOperator {
     }
 }
 
-// TODO: UInt
 #[derive(Debug, PartialEq)]
 pub enum FilterExpressionResult<'a> {
     Bool(bool),
     Int(i64),
+    /// An integer that is too big for `Int`.
+    UInt(u64),
     Float(f64),
     Null,
     String(String),
@@ -254,12 +255,12 @@ impl<'v> FilterExpressionResult<'v> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else if n.is_i64() {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
+                } else if let Some(u) = n.as_u64() {
+                    FilterExpressionResult::UInt(u)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -343,16 +344,12 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
                 unreachable!()
             }
         }
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l == r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l == r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => *l as f64 == *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l == *r as f64,
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
         (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
         (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
@@ -360,11 +357,35 @@ fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
         (FilterExpressionResult::Bool(_), FilterExpressionResult::Bool(_)) => false,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l < r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l < r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => (*l as f64) < *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l < *r as f64,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Less),
+    }
+}
+
+/// The order of two numbers by mathematical value, or `None` if either operand is not a number.
+fn cmp_numbers(left: &FilterExpressionResult, right: &FilterExpressionResult) -> Option<Ordering> {
+    fn int(rv: &FilterExpressionResult) -> Option<i128> {
+        match rv {
+            FilterExpressionResult::Int(i) => Some(*i as i128),
+            FilterExpressionResult::UInt(u) => Some(*u as i128),
+            _ => None,
+        }
+    }
+
+    // Converting an integer to a float could lose precision, so compare the integer part first.
+    fn cmp_int_float(i: i128, f: f64) -> Option<Ordering> {
+        match i.cmp(&(f as i128)) {
+            Ordering::Equal => 0.0.partial_cmp(&f.fract()),
+            order => Some(order),
+        }
+    }
+
+    match (left, right) {
+        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l.partial_cmp(r),
+        (FilterExpressionResult::Float(l), r) => {
+            cmp_int_float(int(r)?, *l).map(Ordering::reverse)
+        }
+        (l, FilterExpressionResult::Float(r)) => cmp_int_float(int(l)?, *r),
+        (l, r) => Some(int(l)?.cmp(&int(r)?)),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 26e164e..04d7b62 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{cmp::Ordering, fmt};
 
 use serde_json::Value;
 
@@ -236,6 +236,8 @@ impl fmt::Display for ComparisonOperator {
 pub enum FilterExpressionResult<'a> {
     Bool(bool),
     Int(i64),
+    /// An integer that is too big for `Int`.
+    UInt(u64),
     Float(f64),
     Null,
     String(String),
@@ -251,10 +253,12 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
+                } else if let Some(u) = n.as_u64() {
+                    FilterExpressionResult::UInt(u)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -338,16 +342,12 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
                 unreachable!()
             }
         }
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l == r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l == r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => *l as f64 == *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l == *r as f64,
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
         (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
         (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
@@ -355,11 +355,35 @@ fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
         (FilterExpressionResult::Bool(_), FilterExpressionResult::Bool(_)) => false,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l < r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l < r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => (*l as f64) < *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l < *r as f64,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Less),
+    }
+}
+
+/// The order of two numbers by mathematical value, or `None` if either operand is not a number.
+fn cmp_numbers(left: &FilterExpressionResult, right: &FilterExpressionResult) -> Option<Ordering> {
+    fn int(rv: &FilterExpressionResult) -> Option<i128> {
+        match rv {
+            FilterExpressionResult::Int(i) => Some(*i as i128),
+            FilterExpressionResult::UInt(u) => Some(*u as i128),
+            _ => None,
+        }
+    }
+
+    // Converting an integer to a float could lose precision, so compare the integer part first.
+    fn cmp_int_float(i: i128, f: f64) -> Option<Ordering> {
+        match i.cmp(&(f as i128)) {
+            Ordering::Equal => 0.0.partial_cmp(&f.fract()),
+            order => Some(order),
+        }
+    }
+
+    match (left, right) {
+        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l.partial_cmp(r),
+        (FilterExpressionResult::Float(l), r) => {
+            cmp_int_float(int(r)?, *l).map(Ordering::reverse)
+        }
+        (l, FilterExpressionResult::Float(r)) => cmp_int_float(int(l)?, *r),
+        (l, r) => Some(int(l)?.cmp(&int(r)?)),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index c2af714..c76c5c9 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -9,7 +9,7 @@ use itertools::Itertools;
 use lazy_static::lazy_static;
 use serde_json::Value;
 use std::{
-    cmp,
+    cmp::{self, Ordering},
     fmt::{self, Write},
 };
 
@@ -53,11 +53,12 @@ struct QueryContext<'a, 'b> {
     root: &'a Value,
 }
 
-// TODO: UInt
 #[derive(Debug, PartialEq)]
 pub enum FilterExpressionResult<'a> {
     Bool(bool),
     Int(i64),
+    /// An integer that is too big for `Int`.
+    UInt(u64),
     Float(f64),
     Null,
     String(String),
@@ -73,12 +74,12 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else if n.is_i64() {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
+                } else if let Some(u) = n.as_u64() {
+                    FilterExpressionResult::UInt(u)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -835,16 +836,12 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
                 unreachable!()
             }
         }
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l == r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l == r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => *l as f64 == *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l == *r as f64,
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
         (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
         (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
@@ -852,11 +849,35 @@ fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
         (FilterExpressionResult::Bool(_), FilterExpressionResult::Bool(_)) => false,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l < r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l < r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => (*l as f64) < *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l < *r as f64,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Less),
+    }
+}
+
+/// The order of two numbers by mathematical value, or `None` if either operand is not a number.
+fn cmp_numbers(left: &FilterExpressionResult, right: &FilterExpressionResult) -> Option<Ordering> {
+    fn int(rv: &FilterExpressionResult) -> Option<i128> {
+        match rv {
+            FilterExpressionResult::Int(i) => Some(*i as i128),
+            FilterExpressionResult::UInt(u) => Some(*u as i128),
+            _ => None,
+        }
+    }
+
+    // Converting an integer to a float could lose precision, so compare the integer part first.
+    fn cmp_int_float(i: i128, f: f64) -> Option<Ordering> {
+        match i.cmp(&(f as i128)) {
+            Ordering::Equal => 0.0.partial_cmp(&f.fract()),
+            order => Some(order),
+        }
+    }
+
+    match (left, right) {
+        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l.partial_cmp(r),
+        (FilterExpressionResult::Float(l), r) => {
+            cmp_int_float(int(r)?, *l).map(Ordering::reverse)
+        }
+        (l, FilterExpressionResult::Float(r)) => cmp_int_float(int(l)?, *r),
+        (l, r) => Some(int(l)?.cmp(&int(r)?)),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 26e164e..04d7b62 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{cmp::Ordering, fmt};
 
 use serde_json::Value;
 
@@ -236,6 +236,8 @@ impl fmt::Display for ComparisonOperator {
 pub enum FilterExpressionResult<'a> {
     Bool(bool),
     Int(i64),
+    /// An integer that is too big for `Int`.
+    UInt(u64),
     Float(f64),
     Null,
     String(String),
@@ -251,10 +253,12 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
+                } else if let Some(u) = n.as_u64() {
+                    FilterExpressionResult::UInt(u)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -338,16 +342,12 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
                 unreachable!()
             }
         }
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l == r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l == r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => *l as f64 == *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l == *r as f64,
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
         (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
         (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
@@ -355,11 +355,35 @@ fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
         (FilterExpressionResult::Bool(_), FilterExpressionResult::Bool(_)) => false,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Int(r)) => l < r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l < r,
-        (FilterExpressionResult::Int(l), FilterExpressionResult::Float(r)) => (*l as f64) < *r,
-        (FilterExpressionResult::Float(l), FilterExpressionResult::Int(r)) => *l < *r as f64,
-        _ => false,
+        _ => cmp_numbers(left, right) == Some(Ordering::Less),
+    }
+}
+
+/// The order of two numbers by mathematical value, or `None` if either operand is not a number.
+fn cmp_numbers(left: &FilterExpressionResult, right: &FilterExpressionResult) -> Option<Ordering> {
+    fn int(rv: &FilterExpressionResult) -> Option<i128> {
+        match rv {
+            FilterExpressionResult::Int(i) => Some(*i as i128),
+            FilterExpressionResult::UInt(u) => Some(*u as i128),
+            _ => None,
+        }
+    }
+
+    // Converting an integer to a float could lose precision, so compare the integer part first.
+    fn cmp_int_float(i: i128, f: f64) -> Option<Ordering> {
+        match i.cmp(&(f as i128)) {
+            Ordering::Equal => 0.0.partial_cmp(&f.fract()),
+            order => Some(order),
+        }
+    }
+
+    match (left, right) {
+        (FilterExpressionResult::Float(l), FilterExpressionResult::Float(r)) => l.partial_cmp(r),
+        (FilterExpressionResult::Float(l), r) => {
+            cmp_int_float(int(r)?, *l).map(Ordering::reverse)
+        }
+        (l, FilterExpressionResult::Float(r)) => cmp_int_float(int(l)?, *r),
+        (l, r) => Some(int(l)?.cmp(&int(r)?)),
     }
 }
 
-- 
2.43.0


From 6edae9d8921e7da52bf962d212a861ad0ad85855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 04/26] fix: compare numbers nested in arrays and objects by
 value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 23 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 23 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 +++++++++++++++++--
 .../src/filter.rs                             | 23 +++++++++++++++++--
 4 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index a2c7e05..bd09eae 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -347,12 +347,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
+/// Deep equality of JSON values, with numbers being equal if their mathematical values are.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(a, b)| json_eq(a, b))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, a)| r.get(k).is_some_and(|b| json_eq(a, b)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 04d7b62..1264497 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -345,12 +345,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
+/// Deep equality of JSON values, with numbers being equal if their mathematical values are.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(a, b)| json_eq(a, b))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, a)| r.get(k).is_some_and(|b| json_eq(a, b)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index c76c5c9..971caba 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -839,12 +839,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
+/// Deep equality of JSON values, with numbers being equal if their mathematical values are.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(a, b)| json_eq(a, b))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, a)| r.get(k).is_some_and(|b| json_eq(a, b)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 04d7b62..1264497 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -345,12 +345,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => cmp_numbers(left, right) == Some(Ordering::Equal),
     }
 }
 
+/// Deep equality of JSON values, with numbers being equal if their mathematical values are.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(a, b)| json_eq(a, b))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, a)| r.get(k).is_some_and(|b| json_eq(a, b)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From ccf6107b1f37d9a7b624e7b4665a52e8b97bea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 05/26] fix: pass truth values to function parameters of
 logical type

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index bd09eae..1f792c8 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -413,8 +413,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 1264497..ca06878 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -411,8 +411,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 971caba..6025c03 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -905,8 +905,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 1264497..ca06878 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -411,8 +411,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0


From 192b57bc1eebcda3ecebdc9a4b58eb1b9eb3da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 06/26] fix: match() is anchored for patterns starting with '^'
 or ending with '$'

---
 crates/jsonpath_rfc9535_iter/src/standard_functions.rs      | 6 +-----
 crates/jsonpath_rfc9535_locations/src/standard_functions.rs | 6 +-----
 crates/jsonpath_rfc9535_serde/src/standard_functions.rs     | 6 +-----
 .../src/standard_functions.rs                               | 6 +-----
 4 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..6ef0e8a 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..b5cab93 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..545eafd 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..b5cab93 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -263,9 +263,5 @@ fn map_regex(pattern: &str) -> String {
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
-- 
2.43.0


From e4553013236d0aa824bd29fb4ea75991d4bebab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 07/26] fix: '.' does not match line ends and '&' and '~' are
 literals in i-regexp classes

---
 .../src/standard_functions.rs                 | 74 +++++++++----------
 .../src/standard_functions.rs                 | 74 +++++++++----------
 .../src/standard_functions.rs                 | 74 +++++++++----------
 .../src/standard_functions.rs                 | 74 +++++++++----------
 4 files changed, 144 insertions(+), 152 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 6ef0e8a..23e627c 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,45 +221,43 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // `&&` and `~~` are set operators for the regex crate
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                mapped.push(c);
+            }
+            '[' => {
+                char_class = true;
+                mapped.push(c);
+            }
+            ']' => {
+                char_class = false;
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b5cab93..8e7ed7f 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,45 +221,43 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // `&&` and `~~` are set operators for the regex crate
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                mapped.push(c);
+            }
+            '[' => {
+                char_class = true;
+                mapped.push(c);
+            }
+            ']' => {
+                char_class = false;
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index 545eafd..8df0ca5 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,45 +221,43 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // `&&` and `~~` are set operators for the regex crate
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                mapped.push(c);
+            }
+            '[' => {
+                char_class = true;
+                mapped.push(c);
+            }
+            ']' => {
+                char_class = false;
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b5cab93..8e7ed7f 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,45 +221,43 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // `&&` and `~~` are set operators for the regex crate
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                mapped.push(c);
+            }
+            '[' => {
+                char_class = true;
+                mapped.push(c);
+            }
+            ']' => {
+                char_class = false;
+                mapped.push(c);
+            }
+            _ => mapped.push(c),
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-- 
2.43.0


From dd8bb4387977bad3a0174f92688b243c0810093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 08/26] fix: do not recurse for every skipped node in iterators

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index e36e595..763048e 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -67,15 +67,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            if let Some(v) = self.it.next() {
+                return Some(v);
+            }
+            self.it = Box::new(self.selectors.next()?);
         }
     }
 }
@@ -210,16 +206,12 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        for (index, value) in self.it.by_ref() {
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
+        None
     }
 }
 
@@ -252,16 +244,12 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        for (k, v) in self.it.by_ref() {
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
+        None
     }
 }
 
-- 
2.43.0


From b996b434e6e39e6dd84bfd4f3f3984f1b9e8efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 09/26] fix: ignore the end of input marker when classifying
 queries as singular or empty

---
 crates/jsonpath_rfc9535_iter/src/query.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/query.rs         | 6 ++++--
 crates/jsonpath_rfc9535_pest/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs               | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/query.rs | 6 ++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..2a1786a 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,7 +23,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -34,7 +36,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 73c3f68..2c1d57d 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..e1a08ae 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,7 +30,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -41,7 +43,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 6025c03..9f521b1 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -150,7 +150,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -161,7 +163,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 73c3f68..2c1d57d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
-- 
2.43.0


From aa38068b587eb9b6fbb81801437c2ba204da37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 10/26] fix: escape member names in normalized paths

---
 crates/jsonpath_rfc9535_iter/src/node.rs      |  4 +++-
 crates/jsonpath_rfc9535_iter/src/unescape.rs  | 19 +++++++++++++++++++
 crates/jsonpath_rfc9535_locations/src/node.rs |  4 ++--
 .../src/unescape.rs                           | 19 +++++++++++++++++++
 crates/jsonpath_rfc9535_serde/src/ast.rs      |  3 ++-
 crates/jsonpath_rfc9535_serde/src/unescape.rs | 19 +++++++++++++++++++
 .../src/node.rs                               |  4 ++--
 .../src/unescape.rs                           | 19 +++++++++++++++++++
 8 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..9423327 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -2,6 +2,8 @@ use std::rc::Rc;
 
 use serde_json::Value;
 
+use crate::unescape::escape;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Node<'a> {
     pub value: &'a Value,
@@ -12,7 +14,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape(loc)),
         })
     }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..dafce30 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -101,3 +101,22 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape `value` for use between single quotes, as in a normalized path.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..461b1fa 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::escape};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..dafce30 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -101,3 +101,22 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape `value` for use between single quotes, as in a normalized path.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 9f521b1..2da8427 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -15,6 +15,7 @@ use std::{
 
 use crate::{
     env::Environment, errors::JSONPathError, function::ExpressionType, parser::JSONPathParser,
+    unescape::escape,
 };
 
 lazy_static! {
@@ -34,7 +35,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}['{}']", self.location, escape(loc)),
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..dafce30 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -101,3 +101,22 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape `value` for use between single quotes, as in a normalized path.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..461b1fa 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, unescape::escape};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("['{}']", escape(s)),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..dafce30 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -101,3 +101,22 @@ fn is_high_surrogate(code_point: u32) -> bool {
 fn is_low_surrogate(code_point: u32) -> bool {
     code_point >= 0xDC00 && code_point <= 0xDFFF
 }
+
+/// Escape `value` for use between single quotes, as in a normalized path.
+pub fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
-- 
2.43.0


From 45a065b56b6cc925f2631c7058f770c5ab20d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 11/26] fix: escape names and string literals when printing
 queries

---
 crates/jsonpath_rfc9535/src/query.rs          | 22 +++++++++++++++++--
 crates/jsonpath_rfc9535_iter/src/filter.rs    |  3 ++-
 crates/jsonpath_rfc9535_iter/src/selector.rs  |  4 ++--
 .../jsonpath_rfc9535_locations/src/filter.rs  |  6 +++--
 .../src/selector.rs                           |  3 ++-
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 22 +++++++++++++++++--
 .../src/ast.rs                                | 22 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      |  4 ++--
 .../src/filter.rs                             |  6 +++--
 .../src/selector.rs                           |  3 ++-
 10 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..a1695a4 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -132,7 +132,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name).replace('\'', "\\'")),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -286,7 +286,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
+            FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
@@ -340,3 +340,21 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// Escape backslashes and control characters.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 1f792c8..3e9c160 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -4,6 +4,7 @@ use serde_json::Value;
 
 use crate::{
     env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    unescape::escape,
 };
 
 #[derive(Debug, Clone)]
@@ -141,7 +142,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 7375362..9ae00b7 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -5,7 +5,7 @@ use std::{
 
 use serde_json::Value;
 
-use crate::filter::FilterExpression;
+use crate::{filter::FilterExpression, unescape::escape};
 
 #[derive(Debug, Clone)]
 pub enum Selector {
@@ -29,7 +29,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index ca06878..d2c88c2 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -2,7 +2,9 @@ use std::{cmp::Ordering, fmt};
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, unescape::escape, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +141,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 645a118..2396930 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::escape,
 };
 
 #[derive(Debug)]
@@ -91,7 +92,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index e1a08ae..2f4ffc1 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -121,7 +121,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name).replace('\'', "\\'")),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -243,7 +243,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
@@ -297,3 +297,21 @@ impl fmt::Display for FilterExpression {
         }
     }
 }
+
+/// Escape backslashes and control characters.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..43a9892 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -178,7 +178,7 @@ impl fmt::Display for Segment {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name).replace('\'', "\\'")),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -209,7 +209,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True_ { .. } => f.write_str("true"),
             FilterExpression::False_ { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
@@ -267,3 +267,21 @@ impl fmt::Display for ComparisonOperator {
         }
     }
 }
+
+/// Escape backslashes and control characters.
+fn escape(value: &str) -> String {
+    let mut rv = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => rv.push_str("\\\\"),
+            '\x08' => rv.push_str("\\b"),
+            '\x0C' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            '\0'..='\x1F' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => rv.push(c),
+        }
+    }
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 2da8427..f86bb80 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -423,7 +423,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -623,7 +623,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index ca06878..d2c88c2 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -2,7 +2,9 @@ use std::{cmp::Ordering, fmt};
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, unescape::escape, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,7 +141,7 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
             FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 7455976..580056e 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -9,6 +9,7 @@ use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
     node::{Location, Node, NodeList},
+    unescape::escape,
     Query,
 };
 
@@ -127,7 +128,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => write!(f, "'{}'", escape(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
-- 
2.43.0


From b2a185eb52f11ca02ce9332cbe8377abe1abbd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 12/26] fix: print negated comparisons and negations in
 parentheses

---
 crates/jsonpath_rfc9535/src/query.rs                    | 7 ++++++-
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 7 ++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 7 ++++++-
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 7 ++++++-
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 7 ++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 7 ++++++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index a1695a4..b826274 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -289,7 +289,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 3e9c160..be95f50 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -145,7 +145,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index d2c88c2..ad26caf 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -144,7 +144,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 2f4ffc1..2afad80 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -246,7 +246,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 43a9892..2f3f50b 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -212,7 +212,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f86bb80..440ff45 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -626,7 +626,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index d2c88c2..ad26caf 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -144,7 +144,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
-- 
2.43.0


From 54112f595af69a799d129571c14f2689c7226381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 13/26] fix: print negative zero like zero

---
 crates/jsonpath_rfc9535/src/query.rs                    | 3 ++-
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 3 ++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 3 ++-
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 3 ++-
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 3 ++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 3 ++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index b826274..16149a2 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -288,7 +288,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "\"{}\"", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index be95f50..da000c7 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -144,7 +144,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index ad26caf..8e77e39 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -143,7 +143,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 2afad80..be89e69 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -245,7 +245,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 2f3f50b..49e6d4b 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -211,7 +211,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 440ff45..a225258 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -625,7 +625,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index ad26caf..8e77e39 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -143,7 +143,8 @@ impl fmt::Display for FilterExpression {
             FilterExpression::Null { .. } => f.write_str("null"),
             FilterExpression::String { value, .. } => write!(f, "'{}'", escape(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            // adding zero turns negative zero into zero
+            FilterExpression::Float { value, .. } => write!(f, "{}", value + 0.0),
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
                     write!(f, "!({expression})")
-- 
2.43.0


From d8c7899163feefdcca893e2bec22e805a6b6ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/26] fix: read negative fractions, negative exponents and
 large numbers exactly

---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 61 ++++++-------------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 61 ++++++-------------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 61 ++++++-------------
 .../src/parser.rs                             | 61 ++++++-------------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 61 ++++++-------------
 .../src/parser.rs                             | 61 ++++++-------------
 6 files changed, 108 insertions(+), 258 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..68b9818 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -282,54 +282,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..68b9818 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -282,54 +282,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..785fc6d 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -334,54 +334,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..12d10c0 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -353,54 +353,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..760203b 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -279,54 +279,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..02b4527 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -301,54 +301,29 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let number = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
+        if let Ok(value) = number.parse::<i64>() {
+            return Ok(FilterExpression::Int { value });
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = number
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
+
+        // An exponent alone does not make it a float, unless the value does not fit.
+        let is_float = number.contains('.')
+            || number.contains("e-")
+            || number.contains("E-")
+            || value.abs() >= 2_f64.powi(63);
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
+        Ok(if is_float {
+            FilterExpression::Float { value }
         } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+            FilterExpression::Int {
+                value: value as i64,
+            }
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-- 
2.43.0


From 5e2bdd8a94f463906df4f875fe56560c25d75d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 15/26] fix: decode adjacent and control character escapes

---
 crates/jsonpath_rfc9535_iter/src/unescape.rs         | 12 ++++--------
 crates/jsonpath_rfc9535_locations/src/unescape.rs    | 12 ++++--------
 crates/jsonpath_rfc9535_pest/src/parser.rs           |  4 ++--
 crates/jsonpath_rfc9535_pest_recursive/src/parser.rs |  4 ++--
 crates/jsonpath_rfc9535_serde/src/unescape.rs        | 12 ++++--------
 .../src/unescape.rs                                  | 12 ++++--------
 6 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index dafce30..3a77bab 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index dafce30..3a77bab 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 785fc6d..edc401f 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -668,8 +668,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // a high surrogate, which the grammar allows only before a low surrogate
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 12d10c0..dee558e 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -684,8 +684,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        // a high surrogate, which the grammar allows only before a low surrogate
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index dafce30..3a77bab 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index dafce30..3a77bab 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -84,14 +84,10 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    Ok(rv.as_bytes().to_owned())
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From d51e13b01d4137636a8447c925d39d808951aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 16/26] fix: read function arguments and tests without
 backtracking, in any form the grammar allows

---
 .../jsonpath_rfc9535_iter/src/jsonpath.pest   | 15 +++--
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 57 +++++++++++--------
 .../src/jsonpath.pest                         | 15 +++--
 .../jsonpath_rfc9535_locations/src/parser.rs  | 57 +++++++++++--------
 .../jsonpath_rfc9535_pest/src/jsonpath.pest   | 15 +++--
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 57 +++++++++++--------
 .../src/jsonpath.pest                         | 15 +++--
 .../src/parser.rs                             | 55 ++++++++++--------
 .../jsonpath_rfc9535_serde/src/jsonpath.pest  | 15 +++--
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 57 +++++++++++--------
 .../src/jsonpath.pest                         | 15 +++--
 .../src/parser.rs                             | 57 +++++++++++--------
 12 files changed, 252 insertions(+), 178 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..034bd31 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -88,17 +88,23 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -148,11 +154,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 68b9818..9be00b8 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -195,6 +195,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -378,34 +382,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..034bd31 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -88,17 +88,23 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -148,11 +154,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 68b9818..9be00b8 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -195,6 +195,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -378,34 +382,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..034bd31 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -88,17 +88,23 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -148,11 +154,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index edc401f..6ce7d07 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -247,6 +247,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -430,34 +434,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..034bd31 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -88,17 +88,23 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -148,11 +154,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index dee558e..45dcf86 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -268,6 +268,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -447,32 +451,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True_ {},
             Rule::false_literal => FilterExpression::False_ {},
             Rule::null => FilterExpression::Null {},
-            Rule::rel_query => {
-                let segments = expr
-                    .into_inner()
-                    .try_fold(Segment::Root {}, |acc, segment| {
-                        self.parse_segment(acc, segment)
-                    });
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query { ast: segments? }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments = expr
-                    .into_inner()
-                    .try_fold(Segment::Root {}, |acc, segment| {
-                        self.parse_segment(acc, segment)
-                    });
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query { ast: segments? }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..034bd31 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -88,17 +88,23 @@ logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -148,11 +154,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 760203b..6d7b3ef 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -192,6 +192,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -375,34 +379,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..af24049 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -91,17 +91,23 @@ singular_query_selector =  { (root_identifier ~ singular_query_segments) | impli
 basic_expr = _{
     paren_expr
   | comparison_expr
+  | function_basic
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+
+// A function call is either compared or tested. Deciding after the call, rather
+// than before it, means that nested calls are read once.
+function_basic = { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
+
+test_expr               =  { filter_query | (logical_not_op ~ S ~ (filter_query | function_expr)) }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
 
 literal = _{
     number
@@ -160,11 +166,10 @@ function_expr = {
     function_name ~ "(" ~ S ~ (function_argument ~ (S ~ "," ~ S ~ function_argument)*)? ~ S ~ ")"
 }
 
+// A literal that's not the whole argument starts a comparison.
 function_argument = _{
-    filter_query
+    literal ~ &(S ~ ("," | ")"))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 02b4527..157bbc9 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -214,6 +214,10 @@ impl JSONPathParser {
         match expr.as_rule() {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
+            Rule::function_basic => match Self::only_child(expr.clone()) {
+                Some(function) => self.parse_function_expression(function),
+                None => self.parse_comparison_expression(expr),
+            },
             Rule::test_expr => self.parse_test_expression(expr),
             _ => unreachable!(),
         }
@@ -397,34 +401,37 @@ impl JSONPathParser {
             Rule::true_literal => FilterExpression::True,
             Rule::false_literal => FilterExpression::False,
             Rule::null => FilterExpression::Null,
-            Rule::rel_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            Rule::logical_or_expr => match self.bare_test_expression(&expr) {
+                Some(test) => self.parse_test_expression_inner(test)?,
+                None => self.parse_logical_or_expression(expr, true)?,
+            },
+            _ => unreachable!(),
+        })
+    }
 
-                FilterExpression::RelativeQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
+    /// Returns the query or function call `expr` consists of, if it is nothing but that.
+    fn bare_test_expression<'a>(&self, expr: &Pair<'a, Rule>) -> Option<Pair<'a, Rule>> {
+        let mut pair = expr.clone();
+        while !matches!(pair.as_rule(), Rule::test_expr | Rule::function_basic) {
+            if !matches!(
+                pair.as_rule(),
+                Rule::logical_or_expr | Rule::logical_and_expr
+            ) {
+                return None;
             }
-            Rule::root_query => {
-                let segments: Result<Vec<_>, _> = expr
-                    .into_inner()
-                    .map(|segment| self.parse_segment(segment))
-                    .collect();
+            pair = Self::only_child(pair)?;
+        }
+        Self::only_child(pair)
+    }
 
-                FilterExpression::RootQuery {
-                    query: Box::new(Query {
-                        segments: segments?,
-                    }),
-                }
-            }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
-            Rule::function_expr => self.parse_function_expression(expr)?,
-            _ => unreachable!(),
-        })
+    fn only_child(pair: Pair<Rule>) -> Option<Pair<Rule>> {
+        let mut it = pair.into_inner();
+        let child = it.next();
+        if it.next().is_none() {
+            child
+        } else {
+            None
+        }
     }
 
     fn parse_i_json_int(&self, value: &str) -> Result<i64, JSONPathError> {
-- 
2.43.0


From 93df8e41cd660c26bc5009259314aa569b39a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 17/26] fix: check the types of logical arguments, grouped
 queries and negated functions

---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 60 +++++++++++++------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 60 +++++++++++++------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 60 +++++++++++++------
 .../src/parser.rs                             | 60 +++++++++++++------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 60 +++++++++++++------
 .../src/parser.rs                             | 60 +++++++++++++------
 6 files changed, 246 insertions(+), 114 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9be00b8..2f2439f 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -315,9 +315,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -370,8 +374,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::String {
                 value: unescape(expr.as_str())?,
@@ -384,10 +393,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null,
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -483,7 +494,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -508,10 +519,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -520,13 +531,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -535,7 +540,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -546,7 +551,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -575,6 +580,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9be00b8..2f2439f 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -315,9 +315,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -370,8 +374,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::String {
                 value: unescape(expr.as_str())?,
@@ -384,10 +393,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null,
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -483,7 +494,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -508,10 +519,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -520,13 +531,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -535,7 +540,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -546,7 +551,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -575,6 +580,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 6ce7d07..61f690b 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -367,9 +367,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -422,8 +426,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::String {
                 value: unescape_string(expr.as_str()),
@@ -436,10 +445,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null,
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -535,7 +546,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -560,10 +571,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -572,13 +583,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -587,7 +592,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -598,7 +603,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -627,6 +632,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 45dcf86..f85fa7d 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -386,9 +386,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -439,8 +443,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::StringLiteral {
                 value: unescape_string(expr.as_str()),
@@ -453,10 +462,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null {},
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -553,7 +564,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -578,10 +589,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -590,13 +601,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -605,7 +610,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -616,7 +621,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -645,6 +650,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.function_signatures.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 6d7b3ef..a632827 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -312,9 +312,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -367,8 +371,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::String {
                 value: unescape(expr.as_str())?,
@@ -381,10 +390,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null,
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -480,7 +491,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -505,10 +516,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -517,13 +528,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -532,7 +537,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -543,7 +548,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -572,6 +577,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 157bbc9..0c941c9 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -334,9 +334,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -389,8 +393,13 @@ impl JSONPathParser {
         })
     }
 
-    fn parse_function_argument(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        Ok(match expr.as_rule() {
+    /// Parse a function argument. The flag tells if the argument is a logical expression,
+    /// as opposed to a literal, or nothing but a query or function call.
+    fn parse_function_argument(
+        &self,
+        expr: Pair<Rule>,
+    ) -> Result<(FilterExpression, bool), JSONPathError> {
+        let arg = match expr.as_rule() {
             Rule::number => self.parse_number(expr)?,
             Rule::double_quoted => FilterExpression::String {
                 value: unescape(expr.as_str())?,
@@ -403,10 +412,12 @@ impl JSONPathParser {
             Rule::null => FilterExpression::Null,
             Rule::logical_or_expr => match self.bare_test_expression(&expr) {
                 Some(test) => self.parse_test_expression_inner(test)?,
-                None => self.parse_logical_or_expression(expr, true)?,
+                None => return Ok((self.parse_logical_or_expression(expr, true)?, true)),
             },
             _ => unreachable!(),
-        })
+        };
+
+        Ok((arg, false))
     }
 
     /// Returns the query or function call `expr` consists of, if it is nothing but that.
@@ -502,7 +513,7 @@ impl JSONPathParser {
     fn assert_well_typed(
         &self,
         func_name: &str,
-        args: Vec<FilterExpression>,
+        args: Vec<(FilterExpression, bool)>,
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -527,10 +538,10 @@ impl JSONPathParser {
 
         // correct argument types?
         for (idx, typ) in signature.param_types.iter().enumerate() {
-            let arg = &args[idx];
+            let (arg, is_logical) = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if *is_logical || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -539,13 +550,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !*is_logical && !self.is_test_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -554,7 +559,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if *is_logical || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -565,7 +570,7 @@ impl JSONPathParser {
             }
         }
 
-        Ok(args)
+        Ok(args.into_iter().map(|(arg, _)| arg).collect())
     }
 
     fn is_value_type(&self, expr: &FilterExpression) -> bool {
@@ -594,6 +599,23 @@ impl JSONPathParser {
         }
     }
 
+    /// Returns `true` if `expr` is a query or a function call that can be tested.
+    fn is_test_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
-- 
2.43.0


From 2bc93715cc9008df7b60cbcadbe81e4714c03811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 18/26] fix: lexer: keep track of parentheses per filter and of
 segments after brackets in filters

---
 crates/jsonpath_rfc9535/src/lexer.rs | 41 +++++++++++++---------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..8f76e69 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -117,7 +117,7 @@ struct Lexer<'q> {
     start: usize,
     pos: usize,
 
-    filter_depth: u32,
+    /// The number of open parentheses in each of the open filters.
     paren_stack: Vec<u32>,
 }
 
@@ -129,7 +129,6 @@ impl<'q> Lexer<'q> {
             start: 0,
             pos: 0,
             chars: query.char_indices(),
-            filter_depth: 0,
             paren_stack: Vec::new(),
         }
     }
@@ -204,6 +203,10 @@ impl<'q> Lexer<'q> {
         }
     }
 
+    fn at_end(&self) -> bool {
+        self.pos == self.query.len()
+    }
+
     fn accept(&mut self, ch: char) -> bool {
         if self.peek() == ch {
             self.next();
@@ -302,9 +305,9 @@ fn lex_segment(l: &mut Lexer) -> State {
     } else if l.accept('[') {
         l.emit(TokenType::LBracket);
         State::LexInsideBracketedSegment
-    } else if l.filter_depth > 0 {
+    } else if !l.paren_stack.is_empty() {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
+    } else if l.at_end() {
         l.next();
         l.emit(TokenType::Eoq);
         State::EndOfQuery
@@ -371,11 +374,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            State::LexSegment
         }
         '*' => {
             l.next();
@@ -385,7 +384,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         '?' => {
             l.next();
             l.emit(TokenType::Filter);
-            l.filter_depth += 1;
+            l.paren_stack.push(0);
             State::LexInsideFilter
         }
         ',' => {
@@ -446,8 +445,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     match l.peek() {
         EOQ => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.paren_stack.pop() != Some(0) {
                 l.error(String::from("unbalanced parentheses"))
             } else {
                 State::LexInsideBracketedSegment
@@ -458,10 +456,10 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.paren_stack.last().is_some_and(|parens| *parens > 0) {
                 State::LexInsideFilter
             } else {
-                l.filter_depth -= 1;
+                l.paren_stack.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -476,7 +474,6 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
         '(' => {
             l.next();
             l.emit(TokenType::LParen);
-            // Are we in a function call? If so, a function argument contains parens.
             if let Some(i) = l.paren_stack.last_mut() {
                 *i += 1;
             }
@@ -485,13 +482,11 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
         ')' => {
             l.next();
             l.emit(TokenType::RParen);
-            // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
-                if *l.paren_stack.last().unwrap() == 1 {
-                    l.paren_stack.pop();
-                } else {
-                    *l.paren_stack.last_mut().unwrap() -= 1;
+            if let Some(i) = l.paren_stack.last_mut() {
+                if *i == 0 {
+                    return l.error(String::from("unbalanced parentheses"));
                 }
+                *i -= 1;
             }
             State::LexInsideFilter
         }
@@ -579,7 +574,9 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
                     _ => {
                         if l.peek() == '(' {
                             // a function call
-                            l.paren_stack.push(1);
+                            if let Some(i) = l.paren_stack.last_mut() {
+                                *i += 1;
+                            }
                             l.emit(TokenType::Function {
                                 name: l.boxed_value(),
                             });
-- 
2.43.0


From ee55f6488d704875502a2e1131eab4e9f115a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 19/26] fix: lexer: reject leading zeros, accept 'E', and keep
 the exact value of integers

---
 crates/jsonpath_rfc9535/src/lexer.rs  | 14 +++++++++++---
 crates/jsonpath_rfc9535/src/parser.rs | 28 +++++++++++++++++++--------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 8f76e69..188350b 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -641,7 +641,11 @@ fn lex_string(l: &mut Lexer, quote: char, next_state: State) -> State {
 }
 
 fn lex_number(l: &mut Lexer) -> State {
-    if !l.accept_run(is_digit) {
+    if l.accept('0') {
+        if is_digit(l.peek()) {
+            return l.error(String::from("numbers must not have leading zeros"));
+        }
+    } else if !l.accept_run(is_digit) {
         let msg = format!("expected a digit, found `{}`", l.next().unwrap_or(EOQ));
         return l.error(msg);
     }
@@ -655,7 +659,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(is_exponent_char) {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -667,7 +671,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(is_exponent_char) {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
@@ -720,6 +724,10 @@ fn is_digit(ch: char) -> bool {
     (0x30..=0x39).contains(&code_point)
 }
 
+fn is_exponent_char(ch: char) -> bool {
+    matches!(ch, 'e' | 'E')
+}
+
 fn is_function_name_first(ch: char) -> bool {
     // a-z
     let code_point = ch as u32;
diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..c35a6de 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -683,15 +683,27 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
-                    JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                let expr = match value.parse::<i64>() {
+                    Ok(value) => FilterExpression::Int { span: *span, value },
+                    Err(_) => {
+                        // an integer with an exponent, or one that's too big for i64
+                        let value = value.parse::<f64>().map_err(|_| {
+                            JSONPathError::syntax(String::from("invalid integer literal"), *span)
+                        })?;
 
-                let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+                        if value.abs() < 2_f64.powi(63) {
+                            FilterExpression::Int {
+                                span: *span,
+                                value: value as i64,
+                            }
+                        } else {
+                            FilterExpression::Float { span: *span, value }
+                        }
+                    }
+                };
+
+                it.next();
+                Ok(expr)
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
-- 
2.43.0


From 3e25febd5d3051b3ada32544f54b1e957c6efcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 20/26] fix: reject misplaced commas and colons in selections
 and function calls

---
 crates/jsonpath_rfc9535/src/parser.rs | 88 ++++++++++-----------------
 1 file changed, 32 insertions(+), 56 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index c35a6de..497820c 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -260,9 +260,11 @@ impl Parser {
 
         loop {
             match it.peek() {
-                Token { kind: RBracket, .. } => {
-                    it.next();
-                    break;
+                Token { kind: RBracket, .. } if selectors.is_empty() => {
+                    return Err(JSONPathError::syntax(
+                        String::from("empty bracketed selection"),
+                        token.span,
+                    ));
                 }
                 Token {
                     kind: Index { .. } | Colon,
@@ -315,21 +317,12 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
-                Token { kind: RBracket, .. } => continue,
+                Token { kind: RBracket, .. } => {
+                    it.next();
+                    break;
+                }
                 Token { kind: Comma, .. } => {
                     // eat comma
                     it.next();
@@ -344,14 +337,6 @@ impl Parser {
             }
         }
 
-        if selectors.is_empty() {
-            return Err(JSONPathError::new(
-                JSONPathErrorType::SyntaxError,
-                String::from("empty bracketed selection"),
-                token.span,
-            ));
-        }
-
         Ok(selectors)
     }
 
@@ -386,28 +371,26 @@ impl Parser {
                 it.next(); // eat colon
             }
 
-            // 1 or 1: or : or ?
-            if matches!(it.peek().kind, Index { .. } | Colon) {
-                if let Token {
-                    kind: Index { ref value },
-                    span,
-                } = it.next()
-                {
-                    stop = Some(self.parse_i_json_int(value, span)?);
-                    if it.peek().kind == Colon {
-                        it.next(); // eat colon
-                    }
-                }
+            // 1 or ?
+            if let Token {
+                kind: Index { value },
+                span,
+            } = it.peek()
+            {
+                stop = Some(self.parse_i_json_int(value, *span)?);
+                it.next();
             }
 
-            // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
+            // : or :1 or ?
+            if it.peek().kind == Colon {
+                it.next(); // eat colon
                 if let Token {
-                    kind: Index { ref value },
+                    kind: Index { value },
                     span,
-                } = it.next()
+                } = it.peek()
                 {
-                    step = Some(self.parse_i_json_int(value, span)?);
+                    step = Some(self.parse_i_json_int(value, *span)?);
+                    it.next();
                 }
             }
 
@@ -753,14 +736,8 @@ impl Parser {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
 
-        while it.peek().kind != RParen {
-            let mut expr = self.parse_basic_expression(it)?;
-
-            while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
-                expr = self.parse_infix_expression(it, expr)?
-            }
-
-            arguments.push(expr);
+        while it.peek().kind != RParen || !arguments.is_empty() {
+            arguments.push(self.parse_filter_expression(it, PRECEDENCE_LOWEST)?);
 
             match it.peek() {
                 Token { kind: RParen, .. } => {
@@ -769,16 +746,15 @@ impl Parser {
                 Token { kind: Comma, .. } => {
                     it.next(); // eat comma
                 }
-                _ => (),
+                Token { kind, span } => {
+                    return Err(JSONPathError::syntax(
+                        format!("expected a comma or closing parenthesis, found {}", kind),
+                        *span,
+                    ));
+                }
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
         it.next(); // eat closing paren
 
         if let Function { ref name } = &token.kind {
-- 
2.43.0


From a076c1bd09d1f2ab18b6e3d170840abe7e2b7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 21/26] fix: check operands of comparisons, negations and
 logical operators, and types of logical arguments

---
 crates/jsonpath_rfc9535/src/parser.rs | 142 +++++++++++++++++++-------
 1 file changed, 105 insertions(+), 37 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 497820c..1fa4ea4 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -431,32 +431,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_compared(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -469,7 +444,23 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        // only parenthesized expressions, queries and function calls can be negated
+        match it.peek() {
+            Token {
+                kind: LParen | Current | Root | Function { .. },
+                ..
+            } => (),
+            Token { kind, span } => {
+                return Err(JSONPathError::syntax(
+                    format!("unexpected {} after `!`", kind),
+                    *span,
+                ));
+            }
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_compared(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -483,6 +474,14 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if precedence == PRECEDENCE_RELATIONAL && it.peek().kind == LParen {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
@@ -493,6 +492,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_compared(&left)?;
+                    self.assert_compared(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -508,6 +509,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_compared(&left)?;
+                    self.assert_compared(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -622,7 +625,18 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
-        Ok(expr)
+        self.assert_compared(&expr)?;
+
+        match it.peek() {
+            Token {
+                kind: Eq | Ge | Gt | Le | Lt | Ne,
+                span,
+            } => Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                *span,
+            )),
+            _ => Ok(expr),
+        }
     }
 
     fn parse_basic_expression(
@@ -735,8 +749,10 @@ impl Parser {
     fn parse_function_call(&self, it: &mut TokenStream) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
+        let mut grouped: Vec<bool> = Vec::new(); // does the argument start with a paren?
 
         while it.peek().kind != RParen || !arguments.is_empty() {
+            grouped.push(it.peek().kind == LParen);
             arguments.push(self.parse_filter_expression(it, PRECEDENCE_LOWEST)?);
 
             match it.peek() {
@@ -759,7 +775,7 @@ impl Parser {
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-            self.assert_well_typed(&function_name, &arguments, &token)?;
+            self.assert_well_typed(&function_name, &arguments, &grouped, &token)?;
             Ok(FilterExpression::Function {
                 span: token.span,
                 name: function_name,
@@ -836,14 +852,52 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Comparison { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Not { .. } => Err(JSONPathError::syntax(
+                String::from("logical expressions are not comparable"),
+                span,
+            )),
             _ => Ok(()),
         }
     }
 
+    fn assert_compared(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::Function { name, span, .. } => {
+                if let Some(FunctionSignature {
+                    return_type: ExpressionType::Value,
+                    ..
+                }) = self.functions.get(name)
+                {
+                    return Err(JSONPathError::typ(
+                        format!("result of {}() must be compared", name),
+                        *span,
+                    ));
+                }
+            }
+            FilterExpression::True { span, .. }
+            | FilterExpression::False { span, .. }
+            | FilterExpression::Null { span, .. }
+            | FilterExpression::String { span, .. }
+            | FilterExpression::Int { span, .. }
+            | FilterExpression::Float { span, .. } => {
+                return Err(JSONPathError::typ(
+                    String::from("filter expression literals must be compared"),
+                    *span,
+                ));
+            }
+            _ => (),
+        }
+
+        Ok(())
+    }
+
     fn assert_well_typed(
         &self,
         func_name: &str,
         args: &[FilterExpression],
+        grouped: &[bool],
         token: &Token,
     ) -> Result<(), JSONPathError> {
         let signature = self.functions.get(func_name).ok_or_else(|| {
@@ -873,7 +927,7 @@ impl Parser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Value' type",
@@ -885,13 +939,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -903,7 +951,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Nodes' type",
@@ -946,6 +994,26 @@ impl Parser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. }
+            | FilterExpression::Not { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
-- 
2.43.0


From fc350fc8832ac0ede39f84e27c3271e70995985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 22/26] fix: decode adjacent escapes, surrogate pairs and hex
 digits correctly, and locate invalid escapes

---
 crates/jsonpath_rfc9535/src/parser.rs | 176 +++++++++-----------------
 1 file changed, 60 insertions(+), 116 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 1fa4ea4..841c9c5 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -42,7 +42,9 @@ use crate::{
     query::{ComparisonOperator, FilterExpression, LogicalOperator, Query, Segment, Selector},
     token::{Token, TokenType},
 };
-use std::{collections::HashMap, iter::Peekable, ops::RangeInclusive, vec::IntoIter};
+use std::{
+    collections::HashMap, iter::Peekable, ops::RangeInclusive, str::Chars, vec::IntoIter,
+};
 
 use TokenType::*;
 
@@ -288,7 +290,7 @@ impl Parser {
                     kind: SingleQuoteString { value },
                     span,
                 } => {
-                    let name = unescape_string(&value.replace("\\'", "'"), span)?;
+                    let name = unescape_string(value, span)?;
                     let token = it.next();
                     selectors.push(Selector::Name {
                         span: token.span,
@@ -726,7 +728,7 @@ impl Parser {
                 kind: SingleQuoteString { value },
                 span,
             } => {
-                let value = unescape_string(&value.replace("\\'", "'"), span)?;
+                let value = unescape_string(value, span)?;
                 let token = it.next();
                 Ok(FilterExpression::String {
                     span: token.span,
@@ -1058,125 +1060,67 @@ impl Parser {
 }
 
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
-    let chars = value.chars().collect::<Vec<char>>();
-    let length = chars.len();
-    let mut rv = String::new();
-    let mut index: usize = 0;
-
-    while index < length {
-        let start_index = token_span.0 + index; // for error reporting
+    let mut rv = String::with_capacity(value.len());
+    let mut chars = value.chars();
+
+    loop {
+        let start = value.len() - chars.as_str().len(); // for error reporting
+        let error = |msg: &str, rest: &str| {
+            JSONPathError::syntax(
+                String::from(msg),
+                (
+                    token_span.0 + start,
+                    token_span.0 + value.len() - rest.len(),
+                ),
+            )
+        };
 
-        match chars[index] {
-            '\\' => {
-                if index + 1 >= length {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid escape"),
-                        (start_index, index + 1),
-                    ));
+        match chars.next() {
+            None => return Ok(rv),
+            Some('\\') => match chars.next() {
+                Some(ch @ ('"' | '\'' | '\\' | '/')) => rv.push(ch),
+                Some('b') => rv.push('\x08'),
+                Some('f') => rv.push('\x0C'),
+                Some('n') => rv.push('\n'),
+                Some('r') => rv.push('\r'),
+                Some('t') => rv.push('\t'),
+                Some('u') => {
+                    let ch = unescape_codepoint(&mut chars)
+                        .ok_or_else(|| error("invalid \\uXXXX escape", chars.as_str()))?;
+                    if ch <= '\x1F' {
+                        return Err(error("invalid character", chars.as_str()));
+                    }
+                    rv.push(ch);
                 }
+                _ => return Err(error("invalid escape", chars.as_str())),
+            },
+            Some('\0'..='\x1F') => return Err(error("invalid character", chars.as_str())),
+            Some(ch) => rv.push(ch),
+        }
+    }
+}
 
-                index += 1;
-
-                match chars[index] {
-                    '"' => rv.push('"'),
-                    '\\' => rv.push('\\'),
-                    '/' => rv.push('/'),
-                    'b' => rv.push('\x08'),
-                    'f' => rv.push('\x0C'),
-                    'n' => rv.push('\n'),
-                    'r' => rv.push('\r'),
-                    't' => rv.push('\t'),
-                    'u' => {
-                        // expect four hex digits
-                        if index + 4 >= length {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
-                            ));
-                        }
-
-                        index += 1;
-
-                        let digits = chars
-                            .get(index..index + 4)
-                            .unwrap()
-                            .iter()
-                            .collect::<String>();
-
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
-                            )
-                        })?;
-
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
-                            // expect a surrogate pair
-                            if index + 9 >= length {
-                                return Err(JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
-                                ));
-                            }
-
-                            let digits = &chars
-                                .get(index + 6..index + 10)
-                                .unwrap()
-                                .iter()
-                                .collect::<String>();
-
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
-
-                            codepoint =
-                                0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
-
-                            index += 6;
-                        }
-
-                        let unescaped = char::from_u32(codepoint).ok_or_else(|| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
-                            )
-                        })?;
+/// Decode an escape sequence, or a pair of them, following its first `\u`.
+fn unescape_codepoint(chars: &mut Chars) -> Option<char> {
+    let codepoint = hex_digits(chars)?;
 
-                        if unescaped as u32 <= 0x1F {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid character"),
-                                (start_index, start_index + 1),
-                            ));
-                        }
+    if !(0xD800..=0xDBFF).contains(&codepoint) {
+        return char::from_u32(codepoint);
+    }
 
-                        rv.push(unescaped);
-                        index += 3;
-                    }
-                    _ => {
-                        return Err(JSONPathError::syntax(
-                            String::from("invalid escape"),
-                            (start_index, index + 1),
-                        ));
-                    }
-                }
-            }
-            c => {
-                if c as u32 <= 0x1F {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid character"),
-                        (start_index, index + 1),
-                    ));
-                }
-                rv.push(c);
-            }
-        }
+    // expect a surrogate pair
+    if chars.next() != Some('\\') || chars.next() != Some('u') {
+        return None;
+    }
 
-        index += 1;
+    let low_surrogate = hex_digits(chars)?;
+    if !(0xDC00..=0xDFFF).contains(&low_surrogate) {
+        return None;
     }
 
-    Ok(rv)
+    char::from_u32(0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF)))
+}
+
+fn hex_digits(chars: &mut Chars) -> Option<u32> {
+    (0..4).try_fold(0, |acc, _| Some(acc * 16 + chars.next()?.to_digit(16)?))
 }
-- 
2.43.0


From bcc25ba8f424235c3e05a99b4dd5a86a4ab8adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 23/26] fix: reject blank space in the brackets of compared
 singular queries

---
 crates/jsonpath_rfc9535/src/parser.rs | 46 ++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 841c9c5..7e07085 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -118,6 +118,8 @@ pub fn standard_functions() -> HashMap<String, FunctionSignature> {
 
 struct TokenStream {
     tokens: Peekable<IntoIter<Token>>,
+    /// Is there blank space inside the brackets of the query parsed last?
+    padded: bool,
 }
 
 impl TokenStream {
@@ -179,6 +181,7 @@ impl Parser {
     pub fn parse_tokens(&self, tokens: Vec<Token>) -> Result<Vec<Segment>, JSONPathError> {
         let mut it = TokenStream {
             tokens: tokens.into_iter().peekable(),
+            padded: false,
         };
 
         match it.next() {
@@ -202,7 +205,9 @@ impl Parser {
 
     fn parse_segments(&self, it: &mut TokenStream) -> Result<Vec<Segment>, JSONPathError> {
         let mut segments: Vec<Segment> = Vec::new();
+        let mut padded = false;
         loop {
+            it.padded = false;
             match it.peek().kind {
                 DoubleDot => {
                     let token = it.next();
@@ -224,8 +229,10 @@ impl Parser {
                     break;
                 }
             }
+            padded |= it.padded;
         }
 
+        it.padded = padded;
         Ok(segments)
     }
 
@@ -259,8 +266,15 @@ impl Parser {
 
         let token = it.next(); // LBracket
         let mut selectors: Vec<Selector> = Vec::new();
+        let tight;
 
         loop {
+            let (start, end) = it.peek().span;
+            let quotes = usize::from(matches!(
+                it.peek().kind,
+                SingleQuoteString { .. } | DoubleQuoteString { .. }
+            ));
+
             match it.peek() {
                 Token { kind: RBracket, .. } if selectors.is_empty() => {
                     return Err(JSONPathError::syntax(
@@ -321,7 +335,8 @@ impl Parser {
 
             // expect a comma or closing bracket
             match it.peek() {
-                Token { kind: RBracket, .. } => {
+                Token { kind: RBracket, span } => {
+                    tight = token.span.1 + quotes == start && end + quotes == span.0;
                     it.next();
                     break;
                 }
@@ -339,6 +354,7 @@ impl Parser {
             }
         }
 
+        it.padded = !tight;
         Ok(selectors)
     }
 
@@ -474,6 +490,10 @@ impl Parser {
         it: &mut TokenStream,
         left: FilterExpression,
     ) -> Result<FilterExpression, JSONPathError> {
+        if self.precedence(&it.peek().kind) == PRECEDENCE_RELATIONAL {
+            self.assert_tight(&left, it)?;
+        }
+
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
 
@@ -485,6 +505,9 @@ impl Parser {
         }
 
         let right = self.parse_filter_expression(it, precedence)?;
+        if precedence == PRECEDENCE_RELATIONAL {
+            self.assert_tight(&right, it)?;
+        }
 
         match op_token.kind {
             And => {
@@ -864,6 +887,27 @@ impl Parser {
         }
     }
 
+    /// Assert that there's no blank space inside the brackets of a singular query that
+    /// has just been parsed.
+    fn assert_tight(
+        &self,
+        expr: &FilterExpression,
+        it: &TokenStream,
+    ) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::RelativeQuery { query, span }
+            | FilterExpression::RootQuery { query, span }
+                if query.is_singular() && it.padded =>
+            {
+                Err(JSONPathError::syntax(
+                    String::from("unexpected blank space in the brackets of a compared query"),
+                    *span,
+                ))
+            }
+            _ => Ok(()),
+        }
+    }
+
     fn assert_compared(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
         match expr {
             FilterExpression::Function { name, span, .. } => {
-- 
2.43.0


From a9163d25c4cb4a5d3f976274faba1cd82a393d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 24/26] fix: accept functions named like true, false or null
 plus more as right operand

---
 crates/jsonpath_rfc9535_iter/src/jsonpath.pest              | 4 ++--
 crates/jsonpath_rfc9535_locations/src/jsonpath.pest         | 4 ++--
 crates/jsonpath_rfc9535_pest/src/jsonpath.pest              | 4 ++--
 crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest    | 4 ++--
 crates/jsonpath_rfc9535_serde/src/jsonpath.pest             | 4 ++--
 crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index 034bd31..fcd6c7a 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -115,9 +115,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index 034bd31..fcd6c7a 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -115,9 +115,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index 034bd31..fcd6c7a 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -115,9 +115,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index 034bd31..fcd6c7a 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -115,9 +115,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index 034bd31..fcd6c7a 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -115,9 +115,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index af24049..d064117 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -118,9 +118,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
-- 
2.43.0


From 273bf1c0126321ad1afdc7a5b1743099bdeb06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 25/26] fix: accept quantifiers of more than one digit in
 regular expressions

---
 .../src/standard_functions.rs                 | 42 ++++++++++++++++++-
 .../src/standard_functions.rs                 | 42 ++++++++++++++++++-
 .../src/standard_functions.rs                 | 42 ++++++++++++++++++-
 .../src/standard_functions.rs                 | 42 ++++++++++++++++++-
 4 files changed, 160 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 23e627c..593106c 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -105,7 +105,7 @@ impl FunctionExtension for Match {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -159,7 +159,7 @@ impl FunctionExtension for Search {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -221,6 +221,44 @@ impl FunctionExtension for Value {
     }
 }
 
+/// Is _pattern_ valid according to I-Regexp?
+///
+/// `iregexp::check()` only knows quantifiers of a single digit, so longer numbers in quantifiers
+/// are shortened before checking.
+fn is_iregexp(pattern: &str) -> bool {
+    let mut shortened = String::with_capacity(pattern.len());
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut quantifier = false;
+
+    for c in pattern.chars() {
+        if quantifier
+            && c.is_ascii_digit()
+            && shortened.ends_with(|prev: char| prev.is_ascii_digit())
+        {
+            continue;
+        }
+
+        shortened.push(c);
+
+        if escaped {
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            '{' => quantifier = !char_class,
+            '}' => quantifier = false,
+            _ => {}
+        }
+    }
+
+    iregexp::check(&shortened)
+}
+
 /// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
     let mut escaped = false;
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index 8e7ed7f..d266f1d 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -105,7 +105,7 @@ impl FunctionExtension for Match {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -159,7 +159,7 @@ impl FunctionExtension for Search {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -221,6 +221,44 @@ impl FunctionExtension for Value {
     }
 }
 
+/// Is _pattern_ valid according to I-Regexp?
+///
+/// `iregexp::check()` only knows quantifiers of a single digit, so longer numbers in quantifiers
+/// are shortened before checking.
+fn is_iregexp(pattern: &str) -> bool {
+    let mut shortened = String::with_capacity(pattern.len());
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut quantifier = false;
+
+    for c in pattern.chars() {
+        if quantifier
+            && c.is_ascii_digit()
+            && shortened.ends_with(|prev: char| prev.is_ascii_digit())
+        {
+            continue;
+        }
+
+        shortened.push(c);
+
+        if escaped {
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            '{' => quantifier = !char_class,
+            '}' => quantifier = false,
+            _ => {}
+        }
+    }
+
+    iregexp::check(&shortened)
+}
+
 /// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
     let mut escaped = false;
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index 8df0ca5..48523b8 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -105,7 +105,7 @@ impl FunctionExtension for Match {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -159,7 +159,7 @@ impl FunctionExtension for Search {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -221,6 +221,44 @@ impl FunctionExtension for Value {
     }
 }
 
+/// Is _pattern_ valid according to I-Regexp?
+///
+/// `iregexp::check()` only knows quantifiers of a single digit, so longer numbers in quantifiers
+/// are shortened before checking.
+fn is_iregexp(pattern: &str) -> bool {
+    let mut shortened = String::with_capacity(pattern.len());
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut quantifier = false;
+
+    for c in pattern.chars() {
+        if quantifier
+            && c.is_ascii_digit()
+            && shortened.ends_with(|prev: char| prev.is_ascii_digit())
+        {
+            continue;
+        }
+
+        shortened.push(c);
+
+        if escaped {
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            '{' => quantifier = !char_class,
+            '}' => quantifier = false,
+            _ => {}
+        }
+    }
+
+    iregexp::check(&shortened)
+}
+
 /// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
     let mut escaped = false;
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index 8e7ed7f..d266f1d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -105,7 +105,7 @@ impl FunctionExtension for Match {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -159,7 +159,7 @@ impl FunctionExtension for Search {
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
                     None => {
-                        if !iregexp::check(p) {
+                        if !is_iregexp(p) {
                             return FilterExpressionResult::Bool(false);
                         }
 
@@ -221,6 +221,44 @@ impl FunctionExtension for Value {
     }
 }
 
+/// Is _pattern_ valid according to I-Regexp?
+///
+/// `iregexp::check()` only knows quantifiers of a single digit, so longer numbers in quantifiers
+/// are shortened before checking.
+fn is_iregexp(pattern: &str) -> bool {
+    let mut shortened = String::with_capacity(pattern.len());
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut quantifier = false;
+
+    for c in pattern.chars() {
+        if quantifier
+            && c.is_ascii_digit()
+            && shortened.ends_with(|prev: char| prev.is_ascii_digit())
+        {
+            continue;
+        }
+
+        shortened.push(c);
+
+        if escaped {
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            '\\' => escaped = true,
+            '[' => char_class = true,
+            ']' => char_class = false,
+            '{' => quantifier = !char_class,
+            '}' => quantifier = false,
+            _ => {}
+        }
+    }
+
+    iregexp::check(&shortened)
+}
+
 /// Map an i-regexp pattern to a pattern with the same meaning for the regex crate.
 fn map_regex(pattern: &str) -> String {
     let mut escaped = false;
-- 
2.43.0


From cf4b9eaa7fa170258f38cabc6d0515ddf5c3b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 26/26] fix: jsonpath_rfc9535: accept calls of functions named
 true, false or null

The grammar of function names includes the keywords. The lexer took them for
literals even in front of a parenthesis, so that registered functions with these
names could not be called, other than in the pest parsers.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 188350b..ce34474 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -567,24 +567,22 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             } else if l.accept_run(is_function_name_first) {
                 // function name or keyword
                 l.accept_run(is_function_name_char);
-                match l.value() {
-                    "true" => l.emit(TokenType::True),
-                    "false" => l.emit(TokenType::False),
-                    "null" => l.emit(TokenType::Null),
-                    _ => {
-                        if l.peek() == '(' {
-                            // a function call
-                            if let Some(i) = l.paren_stack.last_mut() {
-                                *i += 1;
-                            }
-                            l.emit(TokenType::Function {
-                                name: l.boxed_value(),
-                            });
-                            l.next();
-                            l.ignore(); // discard the left paren
-                        } else {
-                            return l.error(format!("unknown keyword `{}`", l.value()));
-                        }
+                if l.peek() == '(' {
+                    // a function call, possibly of a function with the name of a keyword
+                    if let Some(i) = l.paren_stack.last_mut() {
+                        *i += 1;
+                    }
+                    l.emit(TokenType::Function {
+                        name: l.boxed_value(),
+                    });
+                    l.next();
+                    l.ignore(); // discard the left paren
+                } else {
+                    match l.value() {
+                        "true" => l.emit(TokenType::True),
+                        "false" => l.emit(TokenType::False),
+                        "null" => l.emit(TokenType::Null),
+                        _ => return l.error(format!("unknown keyword `{}`", l.value())),
                     }
                 }
             } else {
-- 
2.43.0

