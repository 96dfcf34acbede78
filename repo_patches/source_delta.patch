From f05a03177c840701892431558f078bf187dee8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 1/6] fix: a file included as several kinds gave the first
 kind's value for all of them

---
 src/parse/parser.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..8a9a760 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,16 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+// Values of the files included so far, by kind and full path, and the files being loaded.
+type IncludedMap = (HashMap<(IncludeType, String), Value>, HashSet<String>);
+
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -995,13 +1004,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1132,8 +1134,9 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file may be included as several kinds, so the kind is part of the key.
+    let key = (include_type, String::from(full_path_str));
+    let value = if let Some(value) = included.0.get(&key) {
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1142,8 +1145,7 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From 525a1e46ca613e960c92776fb2d30ba70ce30dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 2/6] fix: panic when the including file disappears while it is
 being loaded

---
 src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 8a9a760..3b696e1 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1123,7 +1123,11 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        // This fails if the file has been removed since we opened it.
+        let full_file = match Path::new(&file).canonicalize()?.to_str() {
+            Some(path) => String::from(path),
+            None => return parse_err(stream.file(), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From e90c03914717b65f7588b87d7229c1f8fec04d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 3/6] fix: abort when the file system reports an absurd file
 size

---
 src/parse/char_stream.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse/char_stream.rs b/src/parse/char_stream.rs
index 88a2640..3cf95de 100644
--- a/src/parse/char_stream.rs
+++ b/src/parse/char_stream.rs
@@ -28,9 +28,8 @@ impl CharStream {
     pub fn from_file(path: &str) -> io::Result<CharStream> {
         let mut file = File::open(path)?;
 
-        let len = file.metadata()?.len();
-        let mut contents = String::with_capacity(len as usize);
-
+        // Do not trust the reported size: it can be anything, and wrong.
+        let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
         Self::from_string_impl(Some(String::from(path)), contents)
-- 
2.43.0


From e584366725ae477ed84a6c61f1587a9e2b953780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 4/6] fix: stack overflow on long chains of includes, which
 escaped the recursion limit

---
 src/parse/parser.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 3b696e1..2a98a80 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -49,25 +49,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -85,7 +93,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -238,7 +246,11 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -263,7 +275,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -381,7 +393,11 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -403,7 +419,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1144,10 +1160,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         included.0.insert(key, value.clone());
         value
-- 
2.43.0


From 6246f2190344148e2008739f6c24e6924f50d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 5/6] fix: stack overflow on long runs of prefix operators and
 dots

---
 src/parse/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2a98a80..88b4eae 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -681,6 +681,11 @@ fn parse_unary_op(
     cur_brace: Option<char>,
     op: UnaryOp,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let next = stream.next();
     assert!(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
@@ -803,6 +808,11 @@ fn parse_variable(
     depth: usize,
     cur_brace: Option<char>,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let mut var = String::new();
     let mut is_global = false;
     let mut dot = false;
-- 
2.43.0


From 5345e6350c72d5535648a69b9a1cfa625e2b731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 6/6] fix: include keywords are not values

Outside an include, a keyword such as Obj evaluated to the parser's own
marker: an empty object that is shared by every text of the process and
held forever, so its reference count and identity were wrong. It is now
refused like any other unknown name.
---
 src/parse/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 88b4eae..3e28cb7 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -864,10 +864,11 @@ fn parse_variable(
         "false" => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
-        "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
-        "Str" => Value::Obj(STR_SENTINEL.clone()),
-        "Arr" => Value::Obj(ARR_SENTINEL.clone()),
-        "Tup" => Value::Obj(TUP_SENTINEL.clone()),
+        // Anywhere else they are not values.
+        "Obj" if cur_brace == Some('>') => Value::Obj(OBJ_SENTINEL.clone()),
+        "Str" if cur_brace == Some('>') => Value::Obj(STR_SENTINEL.clone()),
+        "Arr" if cur_brace == Some('>') => Value::Obj(ARR_SENTINEL.clone()),
+        "Tup" if cur_brace == Some('>') => Value::Obj(TUP_SENTINEL.clone()),
 
         var @ "@" => return parse_err(stream.file(), InvalidValue(var.into(), line, col)),
         var if is_global => {
-- 
2.43.0

