From 01cb09ee72b4cad8cd5acb6e1b258225fe5dc415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:09 +0000
Subject: [PATCH 01/31] fix: write the bold flag of symbol fields as B

Bold fields were written with the letter I, which the parser rejects.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..35a59a5 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 3d7ad91979da52792d31e0523cd5e78ace7cf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:10 +0000
Subject: [PATCH 02/31] fix: report malformed schematics as errors instead of
 panicking

Truncated files, blank lines, short field flags and labels without a
shape made the parser panic.
---
 src/schematic.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..0537dd1 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -1127,8 +1127,7 @@ impl fmt::Display for Text {
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 
@@ -1279,6 +1278,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1376,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1472,6 +1477,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     let size = i64_from_string(p, &String::from(v[5]))?;
     let mut index = 6;
     let shape = if !t.is_local() {
+        if v.len() < 9 {
+            return str_error(format!("expecting 9 elements in {}", s));
+        }
         index = 7;
         Some(v[6].into())
     } else {
@@ -1483,6 +1491,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
+    if p.eof() {
+        return str_error("end of file reached in text".to_string());
+    }
     let text = p.here();
     Ok(Text {
         t: t,
@@ -1553,7 +1564,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     sch.append_text(w)
                 }
                 Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                None => (), // blank line
             }
         }
         p.next()
-- 
2.43.0


From b1c1f3c972b1230d342554c3ed2ebfc006789430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:11 +0000
Subject: [PATCH 03/31] fix: report malformed symbol libraries as errors
 instead of panicking

Truncated files, blank lines in a symbol and short field flags made the
parser panic.
---
 src/symbol_lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 35a59a5..ec0ff4b 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -609,7 +609,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -653,8 +653,7 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
-- 
2.43.0


From b89ca2110e7575373bb261ac9e47346fadf05aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:12 +0000
Subject: [PATCH 04/31] fix: do not panic on symbols without a value field

Writing or renaming a symbol with fewer than two fields, such as a newly
created one, panicked.
---
 src/symbol_lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index ec0ff4b..f3e4e7a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -295,8 +295,9 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        if let Some(field) = self.fields.get_mut(1) {
+            field.value = name.to_string()
+        }
     }
 
     /// get the list of pins on the symbol
@@ -331,7 +332,10 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        match self.fields.get(1) {
+            Some(field) => writeln!(f, "# {}", field.value)?,
+            None => writeln!(f, "# {}", self.name)?,
+        }
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From 489f87da1120d51ecdbd61c877e497988f9aa62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:13 +0000
Subject: [PATCH 05/31] fix: do not panic on file names that are not valid
 UTF-8

---
 src/lib.rs        | 2 +-
 src/symbol_lib.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..92814a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f3e4e7a..906869e 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -845,8 +845,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From 5334ea3dc64845a961f4b1d4f73f39daf4c2f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:14 +0000
Subject: [PATCH 06/31] fix: let reference_ord accept an empty reference

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92814a1..6a85e7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or('\0');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0


From b926de3f1cd477edd87b1afc788aea4912e44c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:16 +0000
Subject: [PATCH 07/31] fix: use the x coordinate in the component bounding box

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 0537dd1..a01739c 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -433,7 +433,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From 289a00815e18a40b247982994e6081ccd1d2eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:17 +0000
Subject: [PATCH 08/31] fix: keep position and orientation of components with a
 unit above 1

The position line starts with the unit number. Only 0 and 1 were
recognised, so other units lost their orientation, and the line was always
written with unit 1.
---
 src/schematic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index a01739c..5a78025 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -596,7 +596,7 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            "1",
+            self.u.split_whitespace().nth(1).unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
@@ -1290,8 +1290,8 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
+            Some(x) if i64::from_str(x).is_ok() => parse_component_rotation(p, &mut d)?,
             _ => println!("skipping unknown component line {}", s),
         }
         p.next()
-- 
2.43.0


From e6bd283d9b244346a15d0033a5e7ae4b5b3e5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:18 +0000
Subject: [PATCH 09/31] fix: keep the portrait flag of the schematic page

---
 src/schematic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 5a78025..414806f 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -282,6 +282,8 @@ pub struct Description {
     pub dimx: i64,
     /// dimension in Y
     pub dimy: i64,
+    /// if the page is in portrait orientation
+    pub portrait: bool,
     /// title
     pub title: String,
     /// date
@@ -310,6 +312,7 @@ impl Default for Description {
             size: String::from(""),
             dimx: 0,
             dimy: 0,
+            portrait: false,
             title: String::from("Normal"),
             date: String::from("Tue 19 May 2015"),
             rev: String::from(""),
@@ -326,7 +329,8 @@ impl Default for Description {
 
 impl fmt::Display for Description {
     fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
-        writeln!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        write!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        writeln!(f, "{}", if self.portrait { " portrait" } else { "" })?;
         writeln!(f, "encoding utf-8")?;
         writeln!(f, "Sheet {} {}", self.sheet, self.sheet_count)?;
         writeln!(f, "Title \"{}\"", self.title)?;
@@ -1189,6 +1193,7 @@ fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     d.size = v[1].clone();
     d.dimx = i64_from_string(p, &v[2])?;
     d.dimy = i64_from_string(p, &v[3])?;
+    d.portrait = v.get(4).map_or(false, |x| x.trim() == "portrait");
     p.next(); // $Descr
     p.next(); // encoding
     let v = parse_split_quote_aware_n(3, &p.here())?;
-- 
2.43.0


From b1529991ad65d8232a79f9e304a6e6ff263dd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:19 +0000
Subject: [PATCH 10/31] fix: accept escaped quotes in quoted schematic and
 library strings

KiCad escapes quotes and backslashes with a backslash. An escaped quote
ended the string and the rest of the line was misread.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6a85e7b..b33b9c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,8 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
     // if we are inside our outside a quoted string
     let mut inside_quotation = false;
     let mut quotation_seen = false;
+    // if the previous character was an escaping backslash
+    let mut escaped = false;
     let mut s2: String = "".into();
     for c in s.chars() {
         if let Some(n) = n_opt {
@@ -43,6 +45,12 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
             inside_quotation = true;
             continue;
         }
+        // an escaped character is part of the string
+        if inside_quotation && (escaped || c == '\\') {
+            escaped = !escaped;
+            s2.push(c);
+            continue;
+        }
         // detection of final "
         if inside_quotation && c == '\"' {
             inside_quotation = false;
-- 
2.43.0


From 8fd3a92934dd8fe59f02f10a38335e2fb29838c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:20 +0000
Subject: [PATCH 11/31] fix: check pins against the 100mil and 50mil grids

Coordinates in symbol libraries are in mils, the check used tens of mils.
---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 906869e..552c76b 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -944,7 +944,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -952,7 +952,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -961,7 +961,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From 240ef1230cff77e30b5b4a7a714e37292f9b929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:21 +0000
Subject: [PATCH 12/31] fix: keep the footprint filters of symbols

The filter list was dropped, and a symbol with both aliases and filters
could not be read because KiCad writes the aliases first.
---
 src/symbol_lib.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 552c76b..2abc058 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -47,6 +47,8 @@ pub struct Symbol {
     pub fields: Vec<Field>,
     /// aliases
     pub aliases: Vec<String>,
+    /// footprint filters of the symbol
+    pub fp_list: Vec<String>,
     /// draw
     pub draw: Vec<Draw>,
 }
@@ -284,6 +286,7 @@ impl Symbol {
             is_power: false,
             fields: vec![],
             aliases: vec![],
+            fp_list: vec![],
             draw: vec![],
         }
     }
@@ -360,6 +363,13 @@ impl fmt::Display for Symbol {
             }
             writeln!(f, "")?;
         }
+        if !self.fp_list.is_empty() {
+            writeln!(f, "$FPLIST")?;
+            for filter in &self.fp_list {
+                writeln!(f, " {}", filter)?;
+            }
+            writeln!(f, "$ENDFPLIST")?;
+        }
         writeln!(f, "DRAW")?;
         for draw in &self.draw {
             writeln!(f, "{}", draw)?
@@ -687,23 +697,27 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
-    if &p.here() == "$FPLIST" {
-        p.next();
-        // skip FPLIST for now
-        while !p.eof() {
-            if &p.here() == "$ENDFPLIST" {
+    // kicad writes ALIAS before $FPLIST, accept both orders
+    loop {
+        if &p.here() == "$FPLIST" {
+            p.next();
+            while !p.eof() {
+                let s2 = p.here();
                 p.next();
-                break;
+                if &s2 == "$ENDFPLIST" {
+                    break;
+                }
+                s.fp_list.push(s2.trim().to_string());
             }
-            p.next()
-        }
-    }
-    if p.here().starts_with("ALIAS") {
-        let v = parse_split_quote_aware(&p.here())?;
-        for alias in v.into_iter().skip(1) {
-            s.aliases.push(alias)
+        } else if p.here().starts_with("ALIAS") {
+            let v = parse_split_quote_aware(&p.here())?;
+            for alias in v.into_iter().skip(1) {
+                s.aliases.push(alias)
+            }
+            p.next();
+        } else {
+            break;
         }
-        p.next();
     }
     // TODO draw
     assume_line!(p, "DRAW");
-- 
2.43.0


From 42c3487ea3e1fef96f8dc0c092ae440f7dde0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:23 +0000
Subject: [PATCH 13/31] fix: avoid integer overflow in the sheet bounding box

---
 src/schematic.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 414806f..2a477a8 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -831,11 +831,12 @@ pub struct Sheet {
 
 impl BoundingBox for Sheet {
     fn bounding_box(&self) -> Bound {
-        Bound::new_from_i64(
-            self.x,
-            self.y - 100,
-            self.x + self.dimx,
-            self.y + self.dimy + 100,
+        let (x, y) = (self.x as f64, self.y as f64);
+        Bound::new(
+            x,
+            y - 100.0,
+            x + self.dimx as f64,
+            y + self.dimy as f64 + 100.0,
         )
     }
 }
-- 
2.43.0


From 8dc92ffef0252bd8ac26fa4bc267a759e3d94f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:57 +0000
Subject: [PATCH 14/31] fix: report empty lists in footprints and boards as
 errors

An empty list where a named one is expected made the parser panic.
---
 src/footprint/de.rs | 14 +++++++-------
 src/layout/de.rs    |  8 ++++----
 src/lib.rs          |  8 ++++++++
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..f7a0049 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,7 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
-use wrap;
+use {list_name, wrap};
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -130,7 +130,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -195,7 +195,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -385,19 +385,19 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.s("element")?)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.f("element")?)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let i = i64::from_str_radix(&s, 16)?;
@@ -412,7 +412,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..ba0bad3 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,7 +5,7 @@
 
 // from parent
 use footprint;
-use wrap;
+use {list_name, wrap};
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,7 +190,7 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
+            let list_name = list_name(x)?;
             let xn = &list_name[..];
             match xn {
                 "add_net" => {
@@ -231,7 +231,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -465,7 +465,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index b33b9c4..95fa4fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,14 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+// like Sexp::list_name but an empty list is an error
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    match s.list()?.first() {
+        Some(name) => name.string(),
+        None => Err("empty list".to_string().into()),
+    }
+}
+
 fn wrap<X, Y, F, G>(s: &Sexp, make: F, wrapper: G) -> result::Result<Y,SexpError>
 where
     F: Fn(&Sexp) -> result::Result<X,SexpError>,
-- 
2.43.0


From b76ff700f5ea934f098ae6fcb37b2ce6f1cc8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:58 +0000
Subject: [PATCH 15/31] fix: reject excessively nested files instead of
 overflowing the stack

---
 src/footprint/mod.rs |  4 ++--
 src/fp_lib_table.rs  |  3 ++-
 src/layout/mod.rs    |  4 ++--
 src/lib.rs           | 43 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/footprint/mod.rs b/src/footprint/mod.rs
index 771a7e6..6db2422 100644
--- a/src/footprint/mod.rs
+++ b/src/footprint/mod.rs
@@ -10,7 +10,7 @@ use std::result;
 use symbolic_expressions;
 use symbolic_expressions::IntoSexp;
 use formatter::KicadFormatter;
-use KicadError;
+use {parse_sexp, KicadError};
 
 // pub use footprint;
 pub use footprint::data::*;
@@ -55,7 +55,7 @@ impl fmt::Display for Layer {
 
 /// parse a &str to a Kicad Module
 pub fn parse(s: &str) -> Result<Module, KicadError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..dc726bd 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -9,6 +9,7 @@ use formatter::KicadFormatter;
 use symbolic_expressions::iteratom::*;
 use shellexpand;
 use error::KicadError;
+use parse_sexp;
 
 /// a fp-lib-table
 #[derive(Debug, Clone)]
@@ -90,7 +91,7 @@ impl FromSexp for Lib {
 
 /// parse a &str to an `FpLibTable`
 pub fn parse(s: &str) -> Result<FpLibTable, SexpError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/layout/mod.rs b/src/layout/mod.rs
index f407554..ee1c7da 100644
--- a/src/layout/mod.rs
+++ b/src/layout/mod.rs
@@ -10,7 +10,7 @@ use formatter::KicadFormatter;
 
 pub use layout::data::*;
 
-use {Adjust, Bound, BoundingBox, KicadError};
+use {parse_sexp, Adjust, Bound, BoundingBox, KicadError};
 
 /// convert a Kicad layout to a String
 pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, KicadError> {
@@ -23,7 +23,7 @@ pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, Ki
 
 /// parse a &str to a Kicad layout
 pub fn parse(s: &str) -> Result<Layout, KicadError> {
-    let x = match symbolic_expressions::parser::parse_str(s) {
+    let x = match parse_sexp(s) {
         Ok(s) => symbolic_expressions::from_sexp(&s),
         Err(x) => Err(format!("ParseError: {:?}", x).into()),
     };
diff --git a/src/lib.rs b/src/lib.rs
index 95fa4fd..834813d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,49 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+// deepest nesting accepted in a file; kicad itself stays below 10
+const MAX_DEPTH: usize = 200;
+
+// parse a symbolic-expression, rejecting one that is nested so deeply
+// that the recursive parser would overflow the stack
+fn parse_sexp(s: &str) -> result::Result<Sexp, SexpError> {
+    let mut depth = 0;
+    // if a new token can start here
+    let mut start = true;
+    let mut inside_quotation = false;
+    let mut escaped = false;
+    for c in s.chars() {
+        if inside_quotation {
+            if c == '"' && !escaped {
+                inside_quotation = false;
+            }
+            escaped = c == '\\';
+            continue;
+        }
+        match c {
+            '(' => {
+                depth += 1;
+                if depth > MAX_DEPTH {
+                    return Err(format!("nested deeper than {} levels", MAX_DEPTH).into());
+                }
+                start = true;
+            }
+            ')' => {
+                if depth <= 1 {
+                    break;
+                }
+                depth -= 1;
+                start = true;
+            }
+            ' ' | '\r' | '\n' => start = true,
+            '\t' => (),
+            '"' if start => inside_quotation = true,
+            _ => start = false,
+        }
+    }
+    symbolic_expressions::parser::parse_str(s)
+}
+
 // like Sexp::list_name but an empty list is an error
 fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
     match s.list()?.first() {
-- 
2.43.0


From 9f81abe6e5deb66c54771b8cbaf760e2568fd022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:59 +0000
Subject: [PATCH 16/31] fix: read and write the rect_delta of trapezoid pads

KiCad writes size, rect_delta and drill in this order. Only one of size
and rect_delta was read, so footprints with trapezoid pads were rejected.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index f7a0049..a2eeb3c 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -246,7 +246,7 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        while let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Size {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From f3fb1e3179eae55af3e2e3694e95ece19f67b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:00 +0000
Subject: [PATCH 17/31] fix: accept a drill that has only an offset

SMD pads with a shape offset have a drill expression without a size, and
this is also how such a drill is written.
---
 src/footprint/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index a2eeb3c..bb80c7a 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -184,7 +184,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
-- 
2.43.0


From aeddd2ddbe6f6a55ee85392468ac8f11a734072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:01 +0000
Subject: [PATCH 18/31] fix: order the corners of line and arc bounding boxes

For a line drawn right to left or bottom to top the corners were swapped,
which gave a wrong footprint bounding box.
---
 src/footprint/data.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..f1cac3a 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1218,7 +1218,12 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        Bound::new(
+            self.start.x.min(self.end.x),
+            self.start.y.min(self.end.y),
+            self.start.x.max(self.end.x),
+            self.start.y.max(self.end.y),
+        )
     }
 }
 
@@ -1318,7 +1323,12 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        Bound::new(
+            self.start.x.min(self.end.x),
+            self.start.y.min(self.end.y),
+            self.start.x.max(self.end.x),
+            self.start.y.max(self.end.y),
+        )
     }
 }
 
-- 
2.43.0


From 0bade5909e1743483d915a623c11af578f09dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:02 +0000
Subject: [PATCH 19/31] fix: use the radius in the bounding box of a via

The size of a via is its diameter.
---
 src/layout/data.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..a64c8d6 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -591,10 +591,11 @@ impl Adjust for Via {
 
 impl BoundingBox for Via {
     fn bounding_box(&self) -> Bound {
-        let x1 = self.at.x - self.size;
-        let y1 = self.at.y - self.size;
-        let x2 = self.at.x + self.size;
-        let y2 = self.at.y + self.size;
+        let r = self.size / 2.0;
+        let x1 = self.at.x - r;
+        let y1 = self.at.y - r;
+        let x2 = self.at.x + r;
+        let y2 = self.at.y + r;
         Bound::new(x1, y1, x2, y2)
     }
 }
-- 
2.43.0


From 53ea09ffc445b6fd8b5827d83170dae3f4e332a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:03 +0000
Subject: [PATCH 20/31] fix: read polygon as zone fill mode

Any fill mode was taken for segment.
---
 src/layout/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index ba0bad3..a69eb62 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -417,7 +417,7 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        fill.segment = i.maybe_s_in_list("mode").map_or(false, |x| x == "segment");
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From 876fc20476c1d092b1ef46af8587caa37e295fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:05 +0000
Subject: [PATCH 21/31] fix: keep layer names with more than one dot

Everything after the first dot was dropped.
---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index f1cac3a..f043d47 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -950,7 +950,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From 62011021eadb8a93ae1fd575e633318788acb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:06 +0000
Subject: [PATCH 22/31] fix: reverse the angle of an arc when flipping it

Mirroring changes the direction of rotation.
---
 src/footprint/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index f043d47..7cc2213 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1316,6 +1316,7 @@ impl Flip for FpArc {
     fn flip(&mut self) {
         self.start.flip();
         self.end.flip();
+        self.angle = -self.angle;
         self.layer.flip()
     }
 }
-- 
2.43.0


From dca67710f9d43e8232cada5251d14e402f0c6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:37 +0000
Subject: [PATCH 23/31] fix: keep left and right justification of mirrored text

A text that is both justified and mirrored lost its mirroring when read,
and flipping a justified text dropped the justification.
---
 src/footprint/data.rs | 10 +++++++++-
 src/footprint/de.rs   |  3 +++
 src/footprint/ser.rs  | 12 +++++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 7cc2213..d6b6634 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -644,7 +644,11 @@ impl Flip for Effects {
     fn flip(&mut self) {
         self.justify = match self.justify {
             None => Some(Justify::Mirror),
-            Some(_) => None,
+            Some(Justify::Mirror) => None,
+            Some(Justify::Left) => Some(Justify::LeftMirror),
+            Some(Justify::LeftMirror) => Some(Justify::Left),
+            Some(Justify::Right) => Some(Justify::RightMirror),
+            Some(Justify::RightMirror) => Some(Justify::Right),
         }
     }
 }
@@ -668,6 +672,10 @@ pub enum Justify {
     Left,
     /// the text is right-justified
     Right,
+    /// the text is left-justified and mirrored
+    LeftMirror,
+    /// the text is right-justified and mirrored
+    RightMirror,
 }
 
 /// the type of X-Y element
diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index bb80c7a..028cc85 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -63,9 +63,12 @@ impl FromSexp for Justify {
     fn from_sexp(s: &Sexp) -> Result<Justify, SexpError> {
         let mut i = IterAtom::new(s, "justify")?;
         let s = i.s("mirror")?;
+        let mirror = i.maybe_literal_s("mirror").is_some();
         match &s[..] {
             "mirror" => Ok(Justify::Mirror),
+            "left" if mirror => Ok(Justify::LeftMirror),
             "left" => Ok(Justify::Left),
+            "right" if mirror => Ok(Justify::RightMirror),
             "right" => Ok(Justify::Right),
             _ => Err(format!("unknown justify: {}", s).into()),
         }
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index bc13b88..6268e47 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -98,11 +98,17 @@ impl IntoSexp for Effects {
 
 impl IntoSexp for Justify {
     fn into_sexp(&self) -> Sexp {
+        let mut v = Sexp::start("justify");
         match *self {
-            Justify::Mirror => ("justify", &"mirror").into(),
-            Justify::Left => ("justify", &"left").into(),
-            Justify::Right => ("justify", &"right").into(),
+            Justify::Left | Justify::LeftMirror => v.push("left"),
+            Justify::Right | Justify::RightMirror => v.push("right"),
+            Justify::Mirror => (),
         }
+        match *self {
+            Justify::Mirror | Justify::LeftMirror | Justify::RightMirror => v.push("mirror"),
+            Justify::Left | Justify::Right => (),
+        }
+        v
     }
 }
 
-- 
2.43.0


From e84e581391102f0e270b463399180de9231727c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:38 +0000
Subject: [PATCH 24/31] fix: report sheets that contain themselves as an error

Collecting or looking up components in such a hierarchy recursed until the
stack overflowed.
---
 src/schematic.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 2a477a8..612111a 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -151,6 +151,14 @@ impl Schematic {
 
     /// return all components including from sub-sheets
     pub fn all_components(&self) -> Result<Vec<Component>, KicadError> {
+        self.all_components_below(&mut vec![])
+    }
+
+    // parents are the files that are being visited
+    fn all_components_below(
+        &self,
+        parents: &mut Vec<PathBuf>,
+    ) -> Result<Vec<Component>, KicadError> {
         let mut v = vec![];
         for x in &self.elements {
             match *x {
@@ -162,16 +170,26 @@ impl Schematic {
                 Element::Other(_) => (),
             }
         }
+        self.enter(parents)?;
         for sheet in &self.sheets {
             let schematic = parse_file_for_sheet(self, sheet)?;
-            let mut v2 = schematic.all_components()?;
+            let mut v2 = schematic.all_components_below(parents)?;
             v.append(&mut v2)
         }
+        parents.pop();
         Ok(v)
     }
 
     /// get a component by reference
     pub fn component_by_reference(&self, reference: &str) -> Result<Component, KicadError> {
+        self.component_by_reference_below(reference, &mut vec![])
+    }
+
+    fn component_by_reference_below(
+        &self,
+        reference: &str,
+        parents: &mut Vec<PathBuf>,
+    ) -> Result<Component, KicadError> {
         for x in &self.elements {
             match *x {
                 Element::Component(ref c) => if c.reference == *reference {
@@ -184,18 +202,36 @@ impl Schematic {
                 Element::Other(_) => (),
             }
         }
+        self.enter(parents)?;
+        let depth = parents.len();
         for sheet in &self.sheets {
             let schematic = parse_file_for_sheet(self, sheet)?;
-            if let Ok(c) = schematic.component_by_reference(reference) {
+            if let Ok(c) = schematic.component_by_reference_below(reference, parents) {
                 return Ok(c);
             }
+            parents.truncate(depth);
         }
+        parents.pop();
         str_error(format!(
             "could not find component {} in schematic",
             reference
         ))
     }
 
+    // add the file of this schematic to the files being visited,
+    // failing when it is already one of them
+    fn enter(&self, parents: &mut Vec<PathBuf>) -> Result<(), KicadError> {
+        let path = match self.filename {
+            Some(ref path) => path.canonicalize().unwrap_or_else(|_| path.clone()),
+            None => PathBuf::new(),
+        };
+        if parents.contains(&path) {
+            return str_error(format!("sheet {} contains itself", path.display()));
+        }
+        parents.push(path);
+        Ok(())
+    }
+
     /// increment the sheet counter of the schematic
     pub fn increment_sheet_count(&mut self) {
         self.description.sheet_count += 1
-- 
2.43.0


From 0051ac10287973075b6bf007966312ca0b160d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:07 +0000
Subject: [PATCH 25/31] fix: keep orientations within one turn when rotating by
 more than a turn

---
 src/footprint/data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index d6b6634..fc1b5e9 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -610,10 +610,7 @@ impl At {
 
 impl Rotate for At {
     fn rotate(&mut self, rot: f64) {
-        self.rot += rot;
-        if self.rot >= 360.0 {
-            self.rot -= 360.0
-        }
+        self.rot = (self.rot + rot) % 360.0;
         if self.rot < 0.0 {
             self.rot += 360.0
         }
-- 
2.43.0


From f9fc925fe595d19193193e63155267d366f15788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:08 +0000
Subject: [PATCH 26/31] fix: mirror the drill offset and the trapezoid delta
 when flipping a pad

---
 src/footprint/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index fc1b5e9..6c3f26e 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1033,6 +1033,12 @@ pub struct Pad {
 impl Flip for Pad {
     fn flip(&mut self) {
         self.at.flip();
+        if let Some(ref mut delta) = self.rect_delta {
+            delta.flip()
+        }
+        if let Some(ref mut drill) = self.drill {
+            drill.offset_y = -drill.offset_y
+        }
         self.layers.flip();
     }
 }
-- 
2.43.0


From d0512263265f44c134da79e97e3a1b1900bd8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:15 +0000
Subject: [PATCH 27/31] fix: hide only the updated field when updating a
 component field

---
 src/schematic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 612111a..5aa172c 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -576,10 +576,10 @@ impl Component {
         for field in &mut self.fields {
             if field.name == *name {
                 field.value.clear();
-                field.value.push_str(value)
-            }
-            if field.i > 1 {
-                field.visible = false
+                field.value.push_str(value);
+                if field.i > 1 {
+                    field.visible = false
+                }
             }
         }
     }
-- 
2.43.0


From 6e878cea4d62040f00ef7628cca2c9c976873a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:07 +0000
Subject: [PATCH 28/31] fix: set the value field when renaming a symbol, not
 the second field in the list

Symbol::set_name updated whichever field came second. In a symbol whose
fields are in another order, or lack the reference, it overwrote the wrong
field. The value is field number 1.
---
 src/symbol_lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 2abc058..7786d33 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -298,7 +298,8 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        if let Some(field) = self.fields.get_mut(1) {
+        // the value is field number 1, wherever it is in the list
+        if let Some(field) = self.fields.iter_mut().find(|f| f.i == 1) {
             field.value = name.to_string()
         }
     }
-- 
2.43.0


From ce834012659adfed23fa0ca8e0e1e28545bf66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:07 +0000
Subject: [PATCH 29/31] fix: undo the indent of an expression that has an empty
 name

The formatter increased the indent when it opened such an expression below
setup, general, layers, net_class or a polygon, and did not decrease it when
closing. Everything that followed was indented too far.
---
 src/formatter.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4a1cefb..e3e3c16 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -328,11 +328,8 @@ impl Formatter for KicadFormatter {
             }
         }
 
-        if !ele.is_empty() {
-            self.stack.push(Some((ele, want_indent)))
-        } else {
-            self.stack.push(None)
-        }
+        // also without a name, so that closing undoes the indent
+        self.stack.push(Some((ele, want_indent)));
         writer.write_all(b"(").map_err(From::from)
     }
 
-- 
2.43.0


From d3a1ed1e34c1a3a4d9883c6cb8c6241ac3331264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:03 +0000
Subject: [PATCH 30/31] fix: put the blank line before the first track segment
 only

A nested expression named segment inside other content got the blank line,
and the first real segment then did not.
---
 src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e3e3c16..16faeae 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -299,7 +299,7 @@ impl Formatter for KicadFormatter {
         }
 
         // write an extra newline before the first segment
-        if !self.seen_segment {
+        if !self.seen_segment && self.parent_is("kicad_pcb") {
             if let "segment" = &ele[..] {
                 self.seen_segment = true;
                 self.indent(writer, 1)?;
-- 
2.43.0


From f931a6cdd77ee00c9f2f3a7b40ffdc80c21e5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:11 +0000
Subject: [PATCH 31/31] fix: do not panic on a variable name that starts with a
 non-ascii letter
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Expanding a library URI such as $élan/x.pretty panicked inside shellexpand.
Put braces around variable names before expanding.
---
 src/fp_lib_table.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index dc726bd..b4fc468 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -36,11 +36,46 @@ pub struct Lib {
 impl Lib {
     /// return the URI with environment variables substituted
     pub fn get_expanded_uri(&self) -> Result<String, KicadError> {
-        let s = shellexpand::full(&self.uri)?;
+        let uri = brace_names(&self.uri);
+        let s = shellexpand::full(&uri)?;
         Ok(s.into())
     }
 }
 
+// put braces around the names of variables, as shellexpand panics on a name
+// without braces that starts with a non-ascii letter
+fn brace_names(uri: &str) -> String {
+    let is_name = |c: char| c.is_alphanumeric() || c == '_';
+    let mut s = String::new();
+    let mut rest = uri;
+    while let Some(p) = rest.find('$') {
+        s.push_str(&rest[..p + 1]);
+        rest = &rest[p + 1..];
+        let end = match rest.chars().next() {
+            Some('$') => 1,
+            Some('{') => match rest.find('}') {
+                Some(p) => p + 1,
+                None => {
+                    // never closed, so no name: escape the dollar
+                    s.push('$');
+                    1
+                }
+            },
+            Some(c) if is_name(c) => {
+                let end = rest.find(|c| !is_name(c)).unwrap_or_else(|| rest.len());
+                s.push_str(&format!("{{{}}}", &rest[..end]));
+                rest = &rest[end..];
+                0
+            }
+            _ => 0,
+        };
+        s.push_str(&rest[..end]);
+        rest = &rest[end..];
+    }
+    s.push_str(rest);
+    s
+}
+
 impl IntoSexp for FpLibTable {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("fp_lib_table");
-- 
2.43.0

