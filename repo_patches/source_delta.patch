From 9003d81306e206c6fe6c836abd1a6cd4e17a125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 01/37] fix: 'run' without arguments reports an error instead
 of panicking

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..ada3d06 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -68,7 +68,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         //Convert TParams to pointers to call the Template
         let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
+        for p in tds.iter().skip(1) {
             v.push(p);
         }
         if let Some(tp) = tds.get(0) {
-- 
2.43.0


From d0a013ebdbad101b12882de0b55bfc306c0bc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 02/37] fix: 'select' with an index one past the last value is
 an error, not a panic

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index ada3d06..f27a6c4 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -97,14 +97,14 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 8f6dc11b1fec230e2f786c1f30b7533b5e8757bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 03/37] fix: 'get' with too few arguments reports an error
 instead of panicking

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..d9e8c97 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,7 +190,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-    let pos = match args[1].deref() {
+    let pos = match args.get(1).e_str("Get requires List and Number")?.deref() {
         TData::Int(i) => TData::UInt(*i as usize),
         v => v.clone(),
     };
-- 
2.43.0


From c6b956c005ad82a80deea0ec573c84946b9059bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 04/37] fix: 'bin_get' returns the item found in the list, not
 one of its own arguments

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index d9e8c97..b3d3831 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From 9919497163053f786b111d3b1e55efda970eaa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 05/37] fix: 'html_esc' terminates the character references for
 both quotes

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..93d62c2 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From 54165660b2c27eecef04bd927919ab69622bed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 06/37] fix: 'table' continuation rows may have more cells than
 the row they continue

---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 5ba6dcedb35d2c0530044859d5a2e618e093743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 07/37] fix: 'string_from_ints' ignores numbers past u32
 instead of truncating them

---
 src/funcs/strings.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 93d62c2..188214d 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tparam::*;
 
@@ -48,8 +49,10 @@ pub fn contains<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn string_from_ints<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = String::new();
     for a in args {
-        let c = a.as_usize().map(|n| n as u32).map(char::from_u32);
-        if let Some(Some(ch)) = c {
+        let c = a.as_usize()
+            .and_then(|n| u32::try_from(n).ok())
+            .and_then(char::from_u32);
+        if let Some(ch) = c {
             res.push(ch)
         }
     }
-- 
2.43.0


From fb4577167f2b16d66973c44ab352e5778915fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 08/37] fix: json integers above i64::MAX become UInt instead
 of panicking

---
 src/tdata.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..8fe49c4 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -183,10 +183,12 @@ impl TData {
         match v {
             SV::String(s) => Self::String(s),
             SV::Number(n) => {
-                if n.is_f64() {
-                    Self::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    Self::Int(i as isize)
+                } else if let Some(u) = n.as_u64() {
+                    Self::UInt(u as usize)
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    n.as_f64().map(Self::Float).unwrap_or(Self::Null)
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From cd07c410a5c63e84e589f18cd0ebf60e412eb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 09/37] fix: 'rand' over an empty range reports an error
 instead of panicking

---
 src/funcs/random.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..e1104c3 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -13,16 +13,18 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) if a < b => b_ok(TData::Int(rg.gen_range(a, b))),
+            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a < b && a.is_finite() && b.is_finite() => {
+                b_ok(TData::Float(rg.gen_range(a, b)))
+            }
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Int(n) if *n > 0 => b_ok(TData::Int(rg.gen_range(0, n))),
+        TData::UInt(n) if *n > 0 => b_ok(TData::UInt(rg.gen_range(0, n))),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From 2d1ec4029c8f5bc61dae98c2b947320851233a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 10/37] fix: 'with_ext' rejects an extension with a path
 separator instead of panicking

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..22b05a5 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.chars().any(std::path::is_separator) {
+        return e_str("'with_ext' extension cannot contain a path separator");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0


From 302fc9197cd815d48b2a9ec3bc247227c1994fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 11/37] fix: folder locked functions refuse paths that climb
 out with '..'

---
 src/funcs/folder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..60223c2 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,24 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::Read;
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
-        return Some(pres);
+    // 'join' keeps "..", and replaces the base when 's' is absolute, so
+    // the part below the base must never climb back out of it.
+    let mut depth: usize = 0;
+    for c in pres.strip_prefix(p).ok()?.components() {
+        match c {
+            Component::Normal(_) => depth += 1,
+            Component::CurDir => {}
+            Component::ParentDir => depth = depth.checked_sub(1)?,
+            Component::RootDir | Component::Prefix(_) => return None,
+        }
     }
-    None
+    Some(pres)
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From 6f7e14865b1091e90e9b2ca21714fb92853468fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 12/37] fix: 'as' closes its scope when the pattern does not
 match

---
 src/template.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..a829eb7 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,14 +262,14 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = match pat.match_data(&val, scope, tm, fm) {
+                    true => run_block(block, scope, tm, fm),
+                    false => Ok(String::new()),
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From 308802d02c1a27579d6e72bfc7644c8a46a52f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 13/37] fix: a block that fails closes its scope, so
 front_matter does not see its variables

---
 src/template.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index a829eb7..c50d9fb 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -99,7 +99,13 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     let mut res = String::new();
     scope.push();
     for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
+        match item.run(scope, tm, fm) {
+            Ok(s) => res.push_str(&s),
+            Err(e) => {
+                scope.pop();
+                return Err(e);
+            }
+        }
     }
     scope.pop();
     Ok(res)
-- 
2.43.0


From 52275e76ceb5961603cec3b3915ddf059c7f319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 14/37] fix: a comment is allowed before the first case of a
 switch

---
 src/template.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.rs b/src/template.rs
index c50d9fb..652b3ae 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -399,6 +399,7 @@ pub fn tt_switch<I: Iterator<Item = FlatItem>>(
                 Some(ref mut cb) => cb.block.push(TreeItem::String(s)),
                 None => {}
             },
+            FlatItem::Comment => {}
             FlatItem::EndBlock(s) if s == "switch" => {
                 curr.take().map(|n| res.push(n));
                 return Ok(TreeItem::Switch(params, res));
-- 
2.43.0


From 18d2308abbd4c9f8cf8025f64af392fe46709054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 15/37] fix: lists, maps, bytes and templates with the same
 contents are equal

---
 src/tdata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index 8fe49c4..64da621 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -55,6 +55,10 @@ impl PartialEq for TData {
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
             (Null, Null) => true,
+            (List(a), List(b)) => a == b,
+            (Map(a), Map(b)) => a == b,
+            (Bytes(a), Bytes(b)) => a == b,
+            (Template(a), Template(b)) => a == b,
             _ => false,
         }
     }
-- 
2.43.0


From 699113ca4ef318b1c239f0d8b30e26209e9d2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 16/37] fix: numbers of different types compare by their exact
 value

---
 src/funcs/math.rs | 31 +++++++++++++++++++++++++++++++
 src/tdata.rs      |  6 ++++++
 2 files changed, 37 insertions(+)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..6aca602 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::cmp::Ordering;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -37,6 +38,36 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+/// The exact order of two numbers of different types (None if one is NaN).
+/// Converting one to the type of the other, as num_match does, can change its value.
+pub fn mixed_order(a: &TData, b: &TData) -> Option<Option<Ordering>> {
+    fn int(d: &TData) -> Option<i128> {
+        match d {
+            TData::UInt(n) => Some(*n as i128),
+            TData::Int(n) => Some(*n as i128),
+            _ => None,
+        }
+    }
+    fn int_float(n: i128, f: f64) -> Option<Ordering> {
+        if f.is_nan() {
+            return None;
+        }
+        // 'as' saturates, every usize and isize is well inside an i128
+        match n.cmp(&(f.trunc() as i128)) {
+            Ordering::Equal => f.trunc().partial_cmp(&f),
+            o => Some(o),
+        }
+    }
+    match (a, b) {
+        (TData::UInt(_), TData::Int(_)) | (TData::Int(_), TData::UInt(_)) => {
+            Some(int(a)?.partial_cmp(&int(b)?))
+        }
+        (TData::Float(f), _) => Some(int_float(int(b)?, *f).map(Ordering::reverse)),
+        (_, TData::Float(f)) => Some(int_float(int(a)?, *f)),
+        _ => None,
+    }
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
diff --git a/src/tdata.rs b/src/tdata.rs
index 64da621..3acec03 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -25,6 +25,9 @@ impl PartialOrd for TData {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         use math::NumMatch::*;
         use TData::*;
+        if let Some(o) = math::mixed_order(self, other) {
+            return o;
+        }
         match math::num_match(self, other) {
             Some(I(a, b)) => return a.partial_cmp(&b),
             Some(U(a, b)) => return a.partial_cmp(&b),
@@ -44,6 +47,9 @@ impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
         use math::NumMatch::*;
         use TData::*;
+        if let Some(o) = math::mixed_order(self, other) {
+            return o == Some(Ordering::Equal);
+        }
         match math::num_match(self, other) {
             Some(I(a, b)) => return a == b,
             Some(U(a, b)) => return a == b,
-- 
2.43.0


From c48853832362f00b55452739fa72c69fe6e8fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 17/37] fix: bools and bytes are ordered in agreement with
 equality

---
 src/tdata.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index 3acec03..382032f 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -37,6 +37,8 @@ impl PartialOrd for TData {
         match (self, other) {
             (String(a), String(b)) => return a.partial_cmp(b),
             (Date(a), Date(b)) => return a.partial_cmp(b),
+            (Bool(a), Bool(b)) => return a.partial_cmp(b),
+            (Bytes(a), Bytes(b)) => return a.partial_cmp(b),
             _ => {}
         }
         self.mode_rank().partial_cmp(&other.mode_rank())
-- 
2.43.0


From 2574d61124ef7c8327b24b656e00b3dd36c5f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 18/37] fix: sorting uses a total order, whatever mix of types
 the list holds

---
 src/funcs/lists.rs | 13 ++++++++++---
 src/tdata.rs       |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index b3d3831..9ce7f0e 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -71,6 +71,13 @@ pub fn index_of<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     return b_ok(TData::Null)
 }
 
+/// A total order, as sorting requires : NaN goes after all other numbers
+fn sort_order(a: &TData, b: &TData) -> Ordering {
+    let is_nan = |d: &TData| matches!(d, TData::Float(f) if f.is_nan());
+    a.partial_cmp(b)
+        .unwrap_or_else(|| is_nan(a).cmp(&is_nan(b)))
+}
+
 pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
     for a in args {
@@ -80,7 +87,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(sort_order);
     b_ok(TData::List(res))
 }
 
@@ -102,10 +109,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => sort_order(&ba, &bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => sort_order(a, b),
             },
             self.down,
         )
diff --git a/src/tdata.rs b/src/tdata.rs
index 382032f..bb1f84d 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -183,8 +183,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From ae2ff59f3a9578db13fee87110094abad149d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 19/37] fix: integer overflow and division by zero are errors,
 not panics or wrapped results

---
 src/funcs/math.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 6aca602..a03a2d8 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use std::cmp::Ordering;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -26,9 +27,9 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => I(isize::try_from(*a).ok()?, *b),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
+        (TData::Int(a), TData::UInt(b)) => I(*a, isize::try_from(*b).ok()?),
         (TData::Int(a), TData::Int(b)) => I(*a, *b),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
@@ -68,11 +69,16 @@ pub fn mixed_order(a: &TData, b: &TData) -> Option<Option<Ordering>> {
     }
 }
 
+fn in_range<'a>(n: Option<TData>) -> anyhow::Result<TCow<'a>> {
+    n.map(TCow::Owned)
+        .e_str("Division by zero, or result too big for an integer")
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => in_range(a.checked_add(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => in_range(a.checked_add(b).map(TData::Int)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -80,9 +86,9 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => return in_range(0isize.checked_sub_unsigned(*n).map(TData::Int)),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return in_range(n.checked_neg().map(TData::Int)),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -91,38 +97,38 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                in_range(0isize.checked_sub_unsigned(b - a).map(TData::Int))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => in_range(a.checked_sub(b).map(TData::Int)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => in_range(a.checked_mul(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => in_range(a.checked_mul(b).map(TData::Int)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => in_range(a.checked_div(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => in_range(a.checked_div(b).map(TData::Int)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => in_range(a.checked_rem(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(a, b)) => in_range(a.checked_rem(b).map(TData::Int)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
-- 
2.43.0


From 2d21968887d44340974ec31f9829fa8571e5a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 20/37] fix: 'word_wrap' keeps other whitespace such as
 no-break spaces, and no line break stays in a line

---
 src/funcs/strings.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 188214d..8dbd2bd 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -128,6 +128,9 @@ pub fn regex<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     b_ok(TData::Bool(reg.is_match(&l[0].to_string())))
 }
 
+/// The whitespace that wrapping may drop at either end of a line
+const WRAP_GAPS: &[char] = &[' ', '\t', '\r', '\n'];
+
 fn _word_wrap(s: &str, len: usize) -> Vec<String> {
     let mut res = Vec::new();
     let mut index = 0;
@@ -138,7 +141,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         match c {
             ' ' | '\t' => brk = Some(k),
             '\n' => {
-                res.push(s[index..k].to_string());
+                res.push(s[index..k].trim_matches(WRAP_GAPS).to_string());
                 count = 0;
                 index = k;
                 brk = None;
@@ -148,13 +151,13 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         if count >= len {
             match brk {
                 Some(b) => {
-                    res.push(s[index..b].trim().to_string());
+                    res.push(s[index..b].trim_matches(WRAP_GAPS).to_string());
                     index = b;
                     count = k - b;
                     brk = None;
                 }
                 None => {
-                    res.push(s[index..k].trim().to_string());
+                    res.push(s[index..k].trim_matches(WRAP_GAPS).to_string());
                     index = k;
                     count = 0;
                     brk = None;
@@ -163,7 +166,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         }
     }
     if index < s.len() {
-        res.push(s[index..].trim().to_string());
+        res.push(s[index..].trim_matches(WRAP_GAPS).to_string());
     }
     //Assert the wrap has all the chars
     let mut s_join = String::new();
-- 
2.43.0


From f7ccb45512f172edcc7463e8561735b8fb57e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 21/37] fix: 'neq' tests that the first value differs from all
 the others, as documented

---
 src/funcs/bools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/funcs/bools.rs b/src/funcs/bools.rs
index 9dc3f40..db06c62 100644
--- a/src/funcs/bools.rs
+++ b/src/funcs/bools.rs
@@ -30,11 +30,11 @@ pub fn neq<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("Not enough args for neq");
     }
     for a in &l[1..] {
-        if *a != l[0] {
-            return b_ok(TData::Bool(true));
+        if *a == l[0] {
+            return b_ok(TData::Bool(false));
         }
     }
-    b_ok(TData::Bool(false))
+    b_ok(TData::Bool(true))
 }
 
 pub fn gt<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From d38775227ea0c6ec223bf4aa75281c1a7b36149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 22/37] fix: 'exec_stdin' no longer deadlocks on large input

---
 src/funcs/exec.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/funcs/exec.rs b/src/funcs/exec.rs
index 3366e27..3685f04 100644
--- a/src/funcs/exec.rs
+++ b/src/funcs/exec.rs
@@ -25,14 +25,18 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()?;
-    match c.stdin {
-        Some(ref mut i) => {
-            write!(i, "{}", args[1])?;
-            i.flush()?;
+    let mut stdin = c.stdin.take().e_str("Stdin not available")?;
+    let input = args[1].to_string();
+    // Written from its own thread : a command that fills its stdout pipe
+    // before it has read all its stdin would otherwise block for ever.
+    let writer = std::thread::spawn(move || stdin.write_all(input.as_bytes()));
+    let op = c.wait_with_output()?;
+    if let Ok(Err(e)) = writer.join() {
+        // The command does not have to read all of its input
+        if e.kind() != std::io::ErrorKind::BrokenPipe {
+            return Err(e.into());
         }
-        None => return e_str("Stdin not available"),
     }
-    let op = c.wait_with_output()?;
 
     b_ok(TData::String(String::from_utf8(op.stdout)?))
 }
-- 
2.43.0


From dc3d29746cdf45420635793397610777feca1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 23/37] fix: a template may end with a backslash, which made
 the parser loop for ever

---
 src/parse/template.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index d68978e..79903cd 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -16,6 +16,7 @@ parser! {(StringItem->String)
     or!(
         ("\\",WN.plus(),maybe("\\")).map(|_|String::new()),
         ("\\",Any.one()).map(|(_,c)|c.to_string()),
+        ("\\",eoi).map(|_|String::new()),
         ("{",fail_on("{")).map(|(s,_)|s.to_string()),
         WN.plus(),
         not(" \n\t\r{\\").plus(),
-- 
2.43.0


From b32f641c6dfd434100b26ef22b52cf2ee2889733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 24/37] fix: names that start with null are not read as null

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 5b9c772..d749ddb 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -37,7 +37,7 @@ parser! {(Var->VarPart)
 
 parser! { (SimpleData->TData)
     or!(
-        "null".map(|_|TData::Null),
+        keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
         common::Float.map(|f|TData::Float(f)),
-- 
2.43.0


From ffbadeb1acb85e033d0a9f5f715e41ad1471180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 25/37] fix: date parts out of range are rejected instead of
 truncated

---
 src/parse/expr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index d749ddb..a45bbdf 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
+use std::convert::TryFrom;
 
 parser! {(Month->usize)
     or!(
@@ -23,9 +24,17 @@ parser! {(Month->usize)
     )
 }
 
+fn date_parts(d: usize, m: usize, y: isize) -> Option<chrono::NaiveDate> {
+    chrono::NaiveDate::from_ymd_opt(
+        i32::try_from(y).ok()?,
+        u32::try_from(m).ok()?,
+        u32::try_from(d).ok()?,
+    )
+}
+
 parser! {(Date->chrono::NaiveDate)
     (common::UInt,"/",Month,"/",common::Int)
-        .try_map(|(d,_,m,_,y)| chrono::NaiveDate::from_ymd_opt(y as i32,m as u32,d as u32)
+        .try_map(|(d,_,m,_,y)| date_parts(d,m,y)
             .ok_or(Expected::Str("Date Creation Failed")))
 
 }
-- 
2.43.0


From 8e7efb92dbe1a85ae5be85dbc199c714dd51f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 26/37] fix: number literals keep their sign, their precision
 and their exponent

---
 src/parse/expr.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index a45bbdf..80eb73e 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -44,14 +44,30 @@ parser! {(Var->VarPart)
         common::UInt.map(|u|VarPart::Num(u)))
 }
 
+parser! {(Float->f64)
+    string((
+        maybe('-'),NumDigit.one(),(NumDigit,'_').istar(),
+        or_ig!(('.',(NumDigit,'_').istar(),maybe(Exponent)),Exponent),
+    )).try_map(|s| s.replace('_',"").parse().map_err(|_|Expected::Str("a float")))
+}
+
+parser! {(Exponent->())
+    ("eE".one(),maybe("+-".one()),NumDigit.plus()).ig()
+}
+
+parser! {(NegInt->isize)
+    last('-',common::UInt)
+        .try_map(|n| 0isize.checked_sub_unsigned(n).ok_or(Expected::Str("Int too big")))
+}
+
 parser! { (SimpleData->TData)
     or!(
         keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
-        common::Float.map(|f|TData::Float(f)),
+        Float.map(|f|TData::Float(f)),
         common::UInt.map(|n|TData::UInt(n)),
-        common::Int.map(|i|TData::Int(i)),
+        NegInt.map(|i|TData::Int(i)),
         TString.map(|s|TData::String(s)),
     )
 }
-- 
2.43.0


From e6fafb95e2faac0fc31fb569aa7cee864741fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 27/37] fix: whitespace is allowed after ':' and inside empty
 brackets, in templates and in r_json

---
 src/parse/expr.rs    | 12 ++++++------
 src/parse/pattern.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 80eb73e..b89658f 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -73,14 +73,14 @@ parser! { (SimpleData->TData)
 }
 parser! {
     (MapData->(String,TData))
-    (wn__(TString),":", BasicData).map(|(a, _, b)| (a, b))
+    (wn__(TString),":", wn_(BasicData)).map(|(a, _, b)| (a, b))
 }
 
 parser! {(BasicData->TData)
     or!(
         SimpleData,
-        ("[",sep_until_ig(wn__(BasicData),maybe(","),"]")).map(|(_,v)|TData::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapData), ",", "}")).map(|a|{
+        (("[",WN.star()),sep_until_ig(wn__(BasicData),maybe(","),"]")).map(|(_,v)|TData::List(v)),
+        ("{",WN.star()).ig_then(sep_until_ig(wn__(MapData), ",", "}")).map(|a|{
             let mut r = std::collections::HashMap::new();
             for (k,v) in a{
                 r.insert(k,v);
@@ -93,8 +93,8 @@ parser! {(BasicData->TData)
 parser! {(Exp->Expr)
     or!(
         middle('(',wn__(Exp),')'),
-        ("[",sep_until_ig(wn__(Exp),maybe(","),"]")).map(|(_,v)|Expr::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapItem), ",", "}")).map(|a| Expr::Map(a)),
+        (("[",WN.star()),sep_until_ig(wn__(Exp),maybe(","),"]")).map(|(_,v)|Expr::List(v)),
+        ("{",WN.star()).ig_then(sep_until_ig(wn__(MapItem), ",", "}")).map(|a| Expr::Map(a)),
         ('$',sep_star(Var,'.')).map(|(_,p)|Expr::Var(p)),
         plus(last('.',Var)).map(|v|{
             let mut r = vec![VarPart::Num(0)];
@@ -150,5 +150,5 @@ parser! {
 
 parser! {
     (MapItem->(String,Expr))
-    (wn__(or!(Ident,TString)),":", Exp).map(|(a, _, b)| (a, b))
+    (wn__(or!(Ident,TString)),":", wn_(Exp)).map(|(a, _, b)| (a, b))
 }
diff --git a/src/parse/pattern.rs b/src/parse/pattern.rs
index d51a81a..c9c108d 100644
--- a/src/parse/pattern.rs
+++ b/src/parse/pattern.rs
@@ -15,10 +15,10 @@ parser! {(PatKV->(String,Pattern))
 parser! {(Pat ->Pattern)
     or!(
         keyword("_").asv(Pattern::Any),
-        ("{",sep_until_ig(wn__(PatKV),maybe(","),"}")).map(|(_,v)|Pattern::Map(v)),
-        ("[",sep_until_ig(wn__(Pat),maybe(","),"]")).map(|(_,v)|Pattern::List(v)),
-        ("?(",Exp,")").map(|(_,v,_)|Pattern::Filter(v)),
-        ("<",wn__(Ident),maybe(":".ig_then(Pat)),">").map(|(_,i,op,_)|Pattern::Capture(i,op.map(|p|Box::new(p)))),
+        (("{",WN.star()),sep_until_ig(wn__(PatKV),maybe(","),"}")).map(|(_,v)|Pattern::Map(v)),
+        (("[",WN.star()),sep_until_ig(wn__(Pat),maybe(","),"]")).map(|(_,v)|Pattern::List(v)),
+        ("?(",wn__(Exp),")").map(|(_,v,_)|Pattern::Filter(v)),
+        ("<",wn__(Ident),maybe(":".ig_then(wn__(Pat))),">").map(|(_,i,op,_)|Pattern::Capture(i,op.map(|p|Box::new(p)))),
 
         SimpleData.map(|v|Pattern::Val(v)),
     )
-- 
2.43.0


From 3aac82d7b17871a4a6ba0b8f8083bb6739199cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 28/37] fix: 'r_json' accepts whitespace before the value

---
 src/funcs/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/format.rs b/src/funcs/format.rs
index 8f06d5b..4e8229a 100644
--- a/src/funcs/format.rs
+++ b/src/funcs/format.rs
@@ -3,13 +3,14 @@ use crate::*;
 use err_tools::*;
 use gobble::traits::*;
 use parse::expr::BasicData;
+use parse::wn_;
 //use std::collections::HashMap;
 use std::ops::Deref;
 use tparam::*;
 pub fn r_json<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let s = l.iter().next().e_str("r_json requires a string argument")?;
     if let TData::String(s) = s.deref() {
-        return BasicData
+        return wn_(BasicData)
             .parse_s(s)
             .map(|v| TCow::Owned(v))
             .map_err(|e| e.strung().into());
-- 
2.43.0


From 27f99e83dffa2bc552d189250de8921663baa7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 29/37] fix: surrogate pairs in string escapes are read as the
 character they encode

---
 src/parse/expr.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index b89658f..71b7efd 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -107,15 +107,22 @@ parser! {(Exp->Expr)
     )
 }
 
-parser! { (HexUnicode ->char)
+parser! { (HexQuad ->u32)
     HexDigit
         .exact(4)
-        .try_map(|v| {
-            let n: u32 =
-                u32::from_str_radix(&v, 16).map_err(|_| Expected::Str("4 hex digits"))?;
-            std::char::from_u32(n).ok_or(Expected::Str("4 Hex digits"))
-        })
-        .brk()
+        .try_map(|v| u32::from_str_radix(&v,16).map_err(|_| Expected::Str("4 hex digits")))
+}
+
+parser! { (HexUnicode ->char)
+    or!(
+        HexQuad.try_map(|n| std::char::from_u32(n).ok_or(Expected::Str("4 Hex digits"))),
+        (HexQuad,"\\u",HexQuad).try_map(|(a,_,b)|
+            std::char::decode_utf16(vec![a as u16,b as u16])
+                .next()
+                .and_then(|r| r.ok())
+                .ok_or(Expected::Str("a surrogate pair"))
+        ),
+    ).brk()
 
 }
 
-- 
2.43.0


From 45162c4c6c280fdff4c0065da209a31290dddc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 30/37] fix: a path into a plain value finds nothing, as it
 does in TData and json

---
 src/tparam.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..18f40dd 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -102,33 +102,51 @@ impl TParam for serde_json::Value {
 }
 
 impl TParam for String {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(self.clone())))
     }
 }
 impl TParam for str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(String::from(self))))
     }
 }
 
 impl TParam for &str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(String::from(*self))))
     }
 }
 impl TParam for usize {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::UInt(*self)))
     }
 }
 impl TParam for f64 {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::Float(*self)))
     }
 }
 impl TParam for bool {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::Bool(*self)))
     }
 }
@@ -147,7 +165,7 @@ impl TParam for Vec<&str> {
                     self.iter().map(|s| TData::String(s.to_string())).collect(),
                 )));
             }
-            Some(VarPart::Num(n)) => self
+            Some(VarPart::Num(n)) if s.len() == 1 => self
                 .get(*n)
                 .map(|s| Cow::Owned(TData::String(s.to_string()))),
             _ => None,
@@ -162,6 +180,9 @@ impl TParam for Card {
             return Some(Cow::Owned(self.into()));
         }
         let id = s[0].as_str()?;
+        if s.len() > 1 && (id == "Name" || id == "Num") {
+            return None;
+        }
         if id == "Name" {
             return Some(Cow::Owned(TData::String(self.name.clone())));
         }
-- 
2.43.0


From ec49832fc8030844b51c4374a608d1f5d11eff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 31/37] fix: 'word_wrap' counts characters, not bytes, after a
 wrap

---
 src/funcs/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 8dbd2bd..ae463d5 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -153,7 +153,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
                 Some(b) => {
                     res.push(s[index..b].trim_matches(WRAP_GAPS).to_string());
                     index = b;
-                    count = k - b;
+                    count = s[b..k].chars().count();
                     brk = None;
                 }
                 None => {
-- 
2.43.0


From 224097ccc7b974452d1f97a812d32c339603c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 32/37] fix: a path below a key-value pair is followed into its
 value

---
 src/tparam.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 18f40dd..0dcf37a 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -228,7 +228,8 @@ impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T>
             return None;
         }
         if s[0].as_str()? == self.0.as_ref() {
-            return Some(Cow::Owned(self.1.clone().into()));
+            let data: TData = self.1.clone().into();
+            return data.get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned()));
         }
         None
     }
-- 
2.43.0


From 30d23bed52ce05772b82db64d7cc16c7dcd09f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 33/37] fix: a tag that does not parse is an error, not an
 endless loop

When the error of a tag was one further on in the text, its end-here mark got
lost, and the text parser then retried for ever on the '{{'.
---
 src/parse/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index 79903cd..a50ed3e 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -56,5 +56,5 @@ parser! {(Item->FlatItem)
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-        .or(strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi))).map(|(s,_)|FlatItem::String(s)))
+        .or((fail_on("{{"),strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi)))).map(|(_,(s,_))|FlatItem::String(s)))
 }
-- 
2.43.0


From 700b1e1c43e4f2a9c85a8052e2776890ea48fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 34/37] fix: a map key in an expression may be a raw string, as
 in data

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 71b7efd..ebf5896 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -157,5 +157,5 @@ parser! {
 
 parser! {
     (MapItem->(String,Expr))
-    (wn__(or!(Ident,TString)),":", wn_(Exp)).map(|(a, _, b)| (a, b))
+    (wn__(or!(TString,Ident)),":", wn_(Exp)).map(|(a, _, b)| (a, b))
 }
-- 
2.43.0


From d7d11d89014d1143e1f2469b98906d90639708f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:40 +0000
Subject: [PATCH 35/37] fix: the smallest integer modulo -1 is 0, not out of
 range

---
 src/funcs/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index a03a2d8..40a729b 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -128,7 +128,8 @@ pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => in_range(a.checked_rem(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => in_range(a.checked_rem(b).map(TData::Int)),
+        // wrapping: the smallest integer divided by -1 leaves no remainder
+        Some(I(a, b)) => in_range((b != 0).then(|| TData::Int(a.wrapping_rem(b)))),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
-- 
2.43.0


From 37a01294575024881de02e04941f5bee736c5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 36/37] fix: run with a first argument that is no template
 evaluates its arguments once

---
 src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index f27a6c4..42c8f9d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -80,6 +80,8 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        // not a template: the arguments have been evaluated, and are not again
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From bfca6cc55c1a0cd9dae86046d30e0abd356457bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 37/37] fix: arithmetic on a large unsigned and a signed number
 gives the exact result where there is one

---
 src/funcs/math.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 40a729b..eb8f80f 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -19,7 +19,8 @@ pub fn fold<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(l: &[T], f: F) -> anyho
 
 pub enum NumMatch {
     U(usize, usize),
-    I(isize, isize),
+    // wide enough for a usize and an isize side by side
+    I(i128, i128),
     F(f64, f64),
 }
 use NumMatch::*;
@@ -27,10 +28,10 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(isize::try_from(*a).ok()?, *b),
+        (TData::UInt(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, isize::try_from(*b).ok()?),
-        (TData::Int(a), TData::Int(b)) => I(*a, *b),
+        (TData::Int(a), TData::UInt(b)) => I(*a as i128, *b as i128),
+        (TData::Int(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
         (TData::Float(a), TData::Int(b)) => F(*a, *b as f64),
@@ -69,6 +70,14 @@ pub fn mixed_order(a: &TData, b: &TData) -> Option<Option<Ordering>> {
     }
 }
 
+/// An integer as Int if that holds it, otherwise as UInt
+fn integer(n: i128) -> Option<TData> {
+    match isize::try_from(n) {
+        Ok(i) => Some(TData::Int(i)),
+        Err(_) => usize::try_from(n).ok().map(TData::UInt),
+    }
+}
+
 fn in_range<'a>(n: Option<TData>) -> anyhow::Result<TCow<'a>> {
     n.map(TCow::Owned)
         .e_str("Division by zero, or result too big for an integer")
@@ -78,7 +87,7 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => in_range(a.checked_add(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => in_range(a.checked_add(b).map(TData::Int)),
+        Some(I(a, b)) => in_range(a.checked_add(b).and_then(integer)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -88,7 +97,7 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         match l[0].deref() {
             TData::UInt(n) => return in_range(0isize.checked_sub_unsigned(*n).map(TData::Int)),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return in_range(n.checked_neg().map(TData::Int)),
+            TData::Int(n) => return in_range(integer(-(*n as i128))),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -101,7 +110,7 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => in_range(a.checked_sub(b).map(TData::Int)),
+        Some(I(a, b)) => in_range(a.checked_sub(b).and_then(integer)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
@@ -110,7 +119,7 @@ pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => in_range(a.checked_mul(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => in_range(a.checked_mul(b).map(TData::Int)),
+        Some(I(a, b)) => in_range(a.checked_mul(b).and_then(integer)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
@@ -119,7 +128,7 @@ pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => in_range(a.checked_div(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => in_range(a.checked_div(b).map(TData::Int)),
+        Some(I(a, b)) => in_range(a.checked_div(b).and_then(integer)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
@@ -128,8 +137,7 @@ pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => in_range(a.checked_rem(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        // wrapping: the smallest integer divided by -1 leaves no remainder
-        Some(I(a, b)) => in_range((b != 0).then(|| TData::Int(a.wrapping_rem(b)))),
+        Some(I(a, b)) => in_range(a.checked_rem(b).and_then(integer)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
@@ -138,7 +146,7 @@ pub fn min<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.min(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.min(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.min(b)))),
+        Some(I(a, b)) => in_range(integer(a.min(b))),
         _ => e_str("Can only min numbers"),
     })
 }
@@ -146,7 +154,7 @@ pub fn max<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.max(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.max(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.max(b)))),
+        Some(I(a, b)) => in_range(integer(a.max(b))),
         _ => e_str("Can only max numbers"),
     })
 }
-- 
2.43.0

