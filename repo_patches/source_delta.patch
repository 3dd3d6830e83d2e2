From e2403cbba7265b3b3fef2ab133cbe20145336844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 01/10] fix: do not print to stdout while parsing a character
 literal

---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From 9f8dfe7573fd888a2acec0cd6de1786ab7283f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 02/10] fix: a parenthesised expression with inner spaces is
 not a tuple

---
 src/ast/expression/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..6976d5a 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -41,7 +41,15 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         ),
         char!(')')
     ),
-    Expression::Tuple
+    // Whitespace around a single parenthesised expression does not make it a tuple
+    |mut v: Vec<Expression>| {
+        if v.len() == 1 {
+            v.remove(0)
+        }
+        else {
+            Expression::Tuple(v)
+        }
+    }
   )
 );
 
-- 
2.43.0


From f1a3fdf92c9212574ae14d948c09f70691f241bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 03/10] fix: a parenthesised type is not a one element tuple

---
 src/ast/type_/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..4ba5f1f 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -35,7 +35,15 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-    Type::TypeTuple
+    // A single parenthesised type is just that type
+    |mut v: Vec<Type>| {
+        if v.len() == 1 {
+            v.remove(0)
+        }
+        else {
+            Type::TypeTuple(v)
+        }
+    }
   )
 );
 
-- 
2.43.0


From 711dfe3e6f9d9a53daf1d4c3521ec8f3250e0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 04/10] fix: accept function types inside tuple types

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 4ba5f1f..c237b74 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -31,7 +31,7 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
             char!(','),
             opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
         ),
-        call!(type_, indentation)
+        call!(type_annotation, indentation)
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-- 
2.43.0


From 3eb70aae8bdec805295d9de2667c204a26b9ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 05/10] fix: accept upper case letters and 0 in type variables

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index c237b74..e62f2e5 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From adb643a8953595ef12fa0244253076c9048da9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 06/10] fix: a backslash is not an operator character

---
 src/ast/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 59c898d..2def853 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -51,7 +51,7 @@ named!(pub up_name<CompleteStr, String>,
 named!(pub operator<CompleteStr, String>,
   map_res!(
     // Regex from elm-ast with extra '-' at the start as it was failing
-    map!(re_matches!(r"^([-+\\-\\/*=.$<>:&|^?%#@~!]+)"), |c| c[0].to_string()),
+    map!(re_matches!(r"^([-+/*=.$<>:&|^?%#@~!]+)"), |c| c[0].to_string()),
     |op: String| {
         if RESERVED_OPERATORS.contains(&op.as_str()) {
             Err("Reserved operator: ".to_string() + &op)
-- 
2.43.0


From 7d127feb036e37725b8cd445f61b62a078a5cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 07/10] fix: accept a record update without a space before the
 closing brace

---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 6976d5a..c0b2e12 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -144,7 +144,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       ) >>
       (Expression::RecordUpdate(name.to_string(), pairs))
     ),
-    terminated!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
+    terminated!(call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
   )
 );
 
-- 
2.43.0


From ee884b4b4470658eb08e5e1943ba6b1295a59093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 08/10] fix: report a directory that cannot be read instead of
 stopping silently

---
 src/dump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump.rs b/src/dump.rs
index dc4fb2e..c811442 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -81,7 +81,7 @@ fn main() {
             let attr = std::fs::metadata(path).expect("file not found");
 
             if attr.is_dir() {
-                dump_directory(path, quiet);
+                dump_directory(path, quiet).expect("failed to read directory");
             } else {
                 dump_file(path, quiet);
             }
-- 
2.43.0


From b4a4bda4d04d9e13912140690a979b3abf0832fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 09/10] fix: accept quotes inside triple-quoted strings

---
 src/ast/expression/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/string.rs b/src/ast/expression/string.rs
index 904d5ad..ed7225b 100644
--- a/src/ast/expression/string.rs
+++ b/src/ast/expression/string.rs
@@ -16,7 +16,7 @@ named!(single_string<CompleteStr, String>,
 
 named!(multi_string<CompleteStr, String>,
   map!(
-    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), tag!(r#"""""#)),
+    delimited!(tag!(r#"""""#), re_matches!(r#"^((?:"{0,2}[^"])*)"#), tag!(r#"""""#)),
     // There is a match above so we'll have a single entry in the vec
     |v| v[0].to_string()
   )
-- 
2.43.0


From 17b0f64b119bcbfc20bfaf945599f2f2df0635c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 10/10] fix: a reserved word is not a type variable

---
 src/ast/type_/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index e62f2e5..77f1def 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,10 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map_opt!(
+    lo_name,
+    |name: Name| if name == "_" { None } else { Some(Type::TypeVariable(name)) }
+  )
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0

