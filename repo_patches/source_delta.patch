From fea1da6ada38c2f2ca6a6a6105d211b6584201b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 01/22] fix: spaces before a line break no longer leak onto the
 next line

Formatter::push and Formatter::line returned early without discarding pending
spaces when a blank line was already pending or nothing had been written yet.
---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..d25ea33 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,23 +109,23 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From d0f265261d267aec3fdfea070ac0d7b8fc89133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 02/22] fix: escape form feed, vertical tab and backspace, not
 their neighbours

The tables named U+0012 and U+0011 for \f and \v (Java: U+0014 and U+0007 for
\f and \b), so those characters were replaced by others when quoted.
---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From 5aeffd48f642db5ba1f97745e2a8d66cc3e87929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 03/22] fix: do not escape the single quote in double-quoted C
 family strings

Go has no \' in interpreted string literals, so the literal did not compile.
---
 src/lang/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 88c80aa..5096cb6 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -196,7 +196,6 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '\t' => out.write_str("\\t")?,
             // vertical tab
             '\u{000b}' => out.write_str("\\v")?,
-            '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
-- 
2.43.0


From c2df4db84f20a294dd523cde3d8a09532597b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 04/22] fix: keep control characters apart from a following hex
 digit in C# strings

\x takes up to four digits in C#, so U+0001 followed by "f" was read as U+001f.
---
 src/lang/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 5096cb6..bdf25ed 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -180,7 +180,9 @@ where
 /// This is one of the more common escape sequences and is provided here so you
 /// can use it if a language you've implemented requires it.
 pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Result {
-    for c in input.chars() {
+    let mut it = input.chars().peekable();
+
+    while let Some(c) = it.next() {
         match c {
             // alert (bell)
             '\u{0007}' => out.write_str("\\a")?,
@@ -202,8 +204,11 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             c if c.is_ascii() => {
                 if !c.is_control() {
                     out.write_char(c)?
-                } else {
+                } else if matches!(it.peek(), Some(n) if !n.is_ascii_hexdigit()) {
                     write!(out, "\\x{:02x}", c as u32)?;
+                } else {
+                    // C# reads up to four digits after `\x`.
+                    write!(out, "\\u{:04x}", c as u32)?;
                 }
             }
             c if (c as u32) < 0x10000 => {
-- 
2.43.0


From eae1403c844ac376cde3bf6d328e8327a03f6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 05/22] fix: write control characters as octal escapes in C
 strings

\x takes any number of digits in C, so U+0001 followed by "f" was read as
U+001f, and \u does not name characters below U+00A0.
---
 src/lang/c.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..ba1144f 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,21 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                match c {
+                    '\u{0007}'..='\u{000d}' => {
+                        super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?;
+                    }
+                    // C has no limit on the digits after `\x` and does not
+                    // allow control characters to be named with `\u`, so write
+                    // them as (UTF-8) bytes in octal.
+                    c if c.is_ascii_control() => write!(out, "\\{:03o}", c as u32)?,
+                    c if c.is_control() => write!(out, "\\302\\{:03o}", c as u32)?,
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 2be020f21b598b2b0a18e4e38012f5d44a36b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 06/22] fix: quote Nix strings with the escapes Nix has
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Nix knows only \n, \r and \t; any other escaped character is that character,
so "π" became "u03c0". ${ starts an interpolation and was left as it is.
---
 src/lang/nix.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..b1a5649 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,23 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nixos.org/manual/nix/stable/language/string-literals
+
+            for c in input.chars() {
+                match c {
+                    '\n' => out.write_str("\\n")?,
+                    '\r' => out.write_str("\\r")?,
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    // start of an interpolation
+                    '$' => out.write_str("\\$")?,
+                    // there are no other escapes, the rest stands for itself
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 3f787f4c6db10cb057d1e533616797f977821a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 07/22] fix: quote JavaScript text that means something in
 template literals

Strings with evaluations are template literals, where ` and ${ end the text;
and \0 followed by a digit is an octal escape or an error, so use \x00.
---
 src/lang/js.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..f00fef5 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,7 +124,9 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
                 match c {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
@@ -138,12 +140,14 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
+                    // end of a template literal
+                    '`' => out.write_str("\\`")?,
+                    // start of an interpolation in a template literal
+                    '$' if matches!(it.peek(), None | Some('{')) => out.write_str("\\$")?,
                     c if !c.is_control() => out.write_char(c)?,
                     c if (c as u32) < 0x100 => {
                         write!(out, "\\x{:02x}", c as u32)?;
-- 
2.43.0


From c690ac80a368ecc6740be13f0f1da52eda2fe128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/22] fix: use braces for Dart interpolations that are not
 identifiers

$a.b in a string interpolates a and then continues with the text .b.
---
 src/lang/dart/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..41814b9 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -67,7 +67,20 @@ impl_lang! {
             _format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            // `$` without braces only takes an identifier.
+            let mut it = literal.chars();
+            let mut ident = matches!(it.next(), Some(c) if c == '_' || c.is_ascii_alphabetic());
+
+            for c in it {
+                ident = ident && (c == '_' || c.is_ascii_alphanumeric());
+            }
+
+            if ident {
+                write!(out, "${}", literal)?;
+            } else {
+                write!(out, "${{{}}}", literal)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From e351fa17dee536c21391bc50a46c857a56ccac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 09/22] fix: qualify Java names which are hidden by another
 import

A single-type import hides the same name in java.lang and in the package of
the file, and the package of the file hides java.lang.
---
 src/lang/java/mod.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..53a3874 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -90,7 +90,14 @@ impl_lang! {
             let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
             let pkg = Some(self.package.as_ref());
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            // An imported name hides the same name in java.lang and in the
+            // package of the file.
+            let is_visible = match imported {
+                Some(..) => imported == pkg,
+                None => &*self.package == JAVA_LANG || file_package == pkg,
+            };
+
+            if !is_visible {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -188,16 +195,20 @@ impl Java {
             return;
         }
 
+        // The package of the file hides the same name in java.lang.
+        let mut local = BTreeSet::new();
+
         for (package, name) in modules {
-            if imported.contains_key(&*name) {
+            if Some(&*package) == file_package {
+                local.insert((package, name));
                 continue;
             }
 
-            if &*package == JAVA_LANG {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-            if Some(&*package) == file_package {
+            if &*package == JAVA_LANG {
                 continue;
             }
 
@@ -207,6 +218,12 @@ impl Java {
             imported.insert(name.to_string(), package.to_string());
         }
 
+        for (package, name) in local {
+            if !imported.contains_key(&*name) {
+                imported.insert(name.to_string(), package.to_string());
+            }
+        }
+
         out.line();
     }
 }
-- 
2.43.0


From b40489b79dad14661ef9026fc335d55482cf24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 10/22] fix: qualify C# names which are hidden or ambiguous

---
 src/lang/csharp/mod.rs | 46 +++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..d23c1d8 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -100,8 +100,9 @@ impl_lang! {
                 }
 
                 if let Some(imported) = format.imported_names.get(name) {
-                    // a conflicting name is in the namespace.
-                    if imported != namespace {
+                    // a conflicting name is in the namespace, or the name is
+                    // ambiguous.
+                    if imported.as_deref() != Some(namespace) {
                         return true;
                     }
                 }
@@ -121,8 +122,8 @@ pub struct Format {
     /// Keeping track of names which have been imported, do determine whether
     /// their use has to be qualified or not.
     ///
-    /// A missing name means that it has to be used in a qualified manner.
-    imported_names: BTreeMap<String, String>,
+    /// A missing namespace means that it has to be used in a qualified manner.
+    imported_names: BTreeMap<String, Option<String>>,
 }
 
 /// Config data for Csharp formatting.
@@ -173,7 +174,7 @@ impl Csharp {
         out: &mut Tokens,
         tokens: &Tokens,
         config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
+        imported_names: &mut BTreeMap<String, Option<String>>,
     ) {
         let mut modules = BTreeSet::new();
 
@@ -187,17 +188,17 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
+        // Names in the current namespace hide the ones which are imported.
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
-                continue;
+                imported_names.insert(name.to_string(), Some(namespace.to_string()));
             }
+        }
 
-            match imported_names.get(name) {
-                // already imported...
-                Some(existing) if existing == namespace => continue,
-                // already imported, as something else...
-                Some(_) => continue,
-                _ => {}
+        for &(namespace, name) in &modules {
+            // already imported, possibly as something else...
+            if imported_names.contains_key(name) {
+                continue;
             }
 
             if !imported.contains(namespace) {
@@ -206,7 +207,24 @@ impl Csharp {
                 imported.insert(namespace);
             }
 
-            imported_names.insert(name.to_string(), namespace.to_string());
+            imported_names.insert(name.to_string(), Some(namespace.to_string()));
+        }
+
+        // Names which several of the imported namespaces have are ambiguous.
+        for &(namespace, name) in &modules {
+            if !imported.contains(namespace) {
+                continue;
+            }
+
+            match imported_names.get(name) {
+                Some(Some(existing))
+                    if existing != namespace
+                        && config.namespace.as_deref() != Some(existing.as_str()) =>
+                {
+                    imported_names.insert(name.to_string(), None);
+                }
+                _ => {}
+            }
         }
 
         out.line();
-- 
2.43.0


From 48ed6dbc3f28c20a58f1fec1bd4dbbd0326713b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 11/22] fix: keep every default import of a JavaScript module

---
 src/lang/js.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index f00fef5..02374ac 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -436,7 +436,15 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+
+                    // a module only has one default clause, the others are
+                    // imported by name.
+                    match module.default_import {
+                        Some(default) if default != &import.name => {
+                            module.set.insert(ImportedElement::Default(&import.name));
+                        }
+                        _ => module.default_import = Some(&import.name),
+                    }
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -481,6 +489,9 @@ impl JavaScript {
                                 ImportedElement::Aliased(name, alias) => {
                                     quote_in!(*tokens => $name as $alias);
                                 }
+                                ImportedElement::Default(name) => {
+                                    quote_in!(*tokens => default as $name);
+                                }
                             }
 
                             if it.peek().is_some() {
@@ -507,6 +518,7 @@ impl JavaScript {
         enum ImportedElement<'a> {
             Plain(&'a ItemStr),
             Aliased(&'a ItemStr, &'a ItemStr),
+            Default(&'a ItemStr),
         }
 
         fn render_from(t: &mut js::Tokens, module_path: Option<&RelativePath>, module: &Module) {
-- 
2.43.0


From b6797273d949cf04e8fee9e2ba5a90f95ad8bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 12/22] fix: make Python name aliases and qualified imports
 exclude each other

---
 src/lang/python.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..372ca3c 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -110,6 +110,13 @@ enum TypeModule {
 }
 
 impl TypeModule {
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } => Self::Unqualified { module },
+            other => other,
+        }
+    }
+
     fn qualified(self) -> Self {
         match self {
             Self::Unqualified { module } => Self::Qualified {
@@ -175,6 +182,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
@@ -204,6 +212,7 @@ impl Import {
     pub fn qualified(self) -> Self {
         Self {
             module: self.module.qualified(),
+            alias: None,
             ..self
         }
     }
@@ -237,6 +246,7 @@ impl Import {
     {
         Self {
             module: self.module.with_alias(module_alias),
+            alias: None,
             ..self
         }
     }
-- 
2.43.0


From df1e2d397b56a7276f8d8e88a507c4803bf37d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 13/22] fix: import dart:core when it has an alias

---
 src/lang/dart/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 41814b9..f90a013 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -207,7 +207,12 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                // core is no longer implicit once it is imported.
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From b315d20c74505a4e99015aacea3a10bfeea3ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 14/22] fix: declare the Nix imports nested in the value of a
 variable

---
 src/lang/nix.rs | 56 +++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index b1a5649..9e82ec7 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -46,12 +47,14 @@ impl_lang! {
             config: &Self::Config,
         ) -> fmt::Result {
             let mut header = Tokens::new();
+            let mut imports = Vec::new();
+            Self::collect(tokens, &mut imports);
 
             if !config.scoped {
-                Self::arguments(&mut header, tokens);
+                Self::arguments(&mut header, &imports);
             }
-            Self::withs(&mut header, tokens);
-            Self::imports(&mut header, tokens);
+            Self::withs(&mut header, &imports);
+            Self::imports(&mut header, &imports);
             let format = Format::default();
             header.format(out, config, &format)?;
             tokens.format(out, config, &format)?;
@@ -134,10 +137,21 @@ impl Config {
 }
 
 impl Nix {
-    fn arguments(out: &mut Tokens, tokens: &Tokens) {
+    /// Collect all imports, including the ones used in the value of a variable.
+    fn collect<'a>(tokens: &'a Tokens, out: &mut Vec<&'a Import>) {
+        for import in tokens.walk_imports() {
+            out.push(import);
+
+            if let Import::Variable(variable) = import {
+                Self::collect(&variable.value, out);
+            }
+        }
+    }
+
+    fn arguments(out: &mut Tokens, imports: &[&Import]) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for &imports in imports {
             match imports {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
@@ -148,23 +162,7 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                Import::Variable(_) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -193,10 +191,10 @@ impl Nix {
         out.line();
     }
 
-    fn withs(out: &mut Tokens, tokens: &Tokens) {
+    fn withs(out: &mut Tokens, imports: &[&Import]) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for &imports in imports {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -214,22 +212,16 @@ impl Nix {
         out.line();
     }
 
-    fn imports(out: &mut Tokens, tokens: &Tokens) {
+    fn imports(out: &mut Tokens, imports: &[&Import]) {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for &imports in imports {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From 60cb8a8c41916c228132b7060b86cd13a96c75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 15/22] fix: compare ItemStr by content

---
 src/tokens/item_str.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..30fd034 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,9 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+///
+/// Two strings are the same if their text is, regardless of how it is stored.
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +24,35 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_ref() == other.as_ref()
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_ref().cmp(other.as_ref())
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        self.as_ref().hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 8172c71049285850af8f6b72b98729164edfcfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 16/22] fix: names of enclosing C# namespaces hide imported
 ones

---
 src/lang/csharp/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index d23c1d8..d7709ce 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -143,6 +143,14 @@ impl Config {
             namespace: Some(namespace.into()),
         }
     }
+
+    /// Test if the given namespace is the current one, or one around it.
+    fn encloses(&self, namespace: &str) -> bool {
+        match self.namespace.as_deref().and_then(|n| n.strip_prefix(namespace)) {
+            Some(rest) => rest.is_empty() || rest.starts_with('.'),
+            None => false,
+        }
+    }
 }
 
 /// The import of a C# type `using System.IO;`.
@@ -188,9 +196,10 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        // Names in the current namespace hide the ones which are imported.
+        // Names in the current namespace and the ones around it hide the ones
+        // which are imported, the innermost hides the rest.
         for &(namespace, name) in &modules {
-            if Some(namespace) == config.namespace.as_deref() {
+            if config.encloses(namespace) {
                 imported_names.insert(name.to_string(), Some(namespace.to_string()));
             }
         }
@@ -217,10 +226,7 @@ impl Csharp {
             }
 
             match imported_names.get(name) {
-                Some(Some(existing))
-                    if existing != namespace
-                        && config.namespace.as_deref() != Some(existing.as_str()) =>
-                {
+                Some(Some(existing)) if existing != namespace && !config.encloses(existing) => {
                     imported_names.insert(name.to_string(), None);
                 }
                 _ => {}
-- 
2.43.0


From 621d59dae3c369e325cbf993de0d563fb449d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 17/22] fix: import a Rust module named in two ways only once

---
 src/lang/rust.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 439e1ea..c5f554b 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -41,6 +41,8 @@
 use core::fmt::Write as _;
 
 use alloc::collections::{BTreeMap, BTreeSet, VecDeque};
+use alloc::format;
+use alloc::string::{String, ToString};
 
 use crate::fmt;
 use crate::tokens::ItemStr;
@@ -387,6 +389,19 @@ impl Import {
         }
     }
 
+    /// The path that is imported if the name itself is.
+    fn direct_path(&self, config: &Config) -> Option<String> {
+        match &self.module {
+            Module::Module { module, import } => {
+                match import.unwrap_or(config.default_import) {
+                    ImportMode::Direct => Some(format!("{}{}{}", module, SEP, self.name)),
+                    ImportMode::Qualified => None,
+                }
+            }
+            Module::Aliased { .. } => None,
+        }
+    }
+
     /// Write the direct name of the type.
     fn write_direct(&self, out: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(alias) = &self.alias {
@@ -419,7 +434,14 @@ impl Rust {
 
         let mut queue = VecDeque::new();
 
+        // Everything that is imported by its name, which might be a module.
+        let mut named = BTreeSet::new();
+
         for import in tokens.walk_imports() {
+            if let Some(path) = import.direct_path(config) {
+                named.insert((path, import.alias.as_ref()));
+            }
+
             queue.push_back(import);
         }
 
@@ -436,8 +458,10 @@ impl Rust {
                     module,
                     import: Some(ImportMode::Qualified),
                 } => {
-                    let module = modules.entry(module).or_default();
-                    module.self_import = true;
+                    if !named.contains(&(module.to_string(), None)) {
+                        let module = modules.entry(module).or_default();
+                        module.self_import = true;
+                    }
                 }
                 Module::Module {
                     module,
@@ -448,13 +472,17 @@ impl Rust {
                         module.names.insert((&import.name, import.alias.as_ref()));
                     }
                     ImportMode::Qualified => {
-                        let module = modules.entry(module).or_default();
-                        module.self_import = true;
+                        if !named.contains(&(module.to_string(), None)) {
+                            let module = modules.entry(module).or_default();
+                            module.self_import = true;
+                        }
                     }
                 },
                 Module::Aliased { module, alias } => {
-                    let module = modules.entry(module).or_default();
-                    module.self_aliases.insert(alias);
+                    if !named.contains(&(module.to_string(), Some(alias))) {
+                        let module = modules.entry(module).or_default();
+                        module.self_aliases.insert(alias);
+                    }
                 }
             }
         }
-- 
2.43.0


From cc5a35338f5fc697faa9469b33e3b2419d09dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 18/22] fix: refuse lines that start left of the first line of
 a quote

---
 genco-macros/src/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..a8a7643 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -415,6 +415,12 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // There is no known level to match the item against. The start
+                // and end of a whitespace sensitive group are not items.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 7c23c746c9ce1f2e5d582626ae1c64527fdb8b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 19/22] fix: read the attributes of match arms from the body of
 the match

---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From 8ec0af077351c7c04e9eea0156ca3e87007a5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 20/22] fix: keep leading and trailing space of evaluations in
 quoted strings

---
 genco-macros/src/string_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -288,7 +288,7 @@ impl<'a> StringParser<'a> {
                     let end = syn::parenthesized!(content in input).span;
 
                     let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
+                        .with_span(end.span())?
                         .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
-- 
2.43.0


From 5f68e189360badf4f4111cef2a9817ac744819b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 21/22] fix: treat groups in quoted strings like the rest of
 the string

---
 genco-macros/src/string_parser.rs | 57 +++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..22b8793 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -235,6 +235,18 @@ impl<'a> StringParser<'a> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
 
+        self.parse_inner(&encoder, &mut requirements, input)?;
+
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
+
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,13 +311,54 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
+            // Groups are entered, so that what they contain is treated like
+            // the rest of the string.
+            if input.peek(token::Brace) {
+                let content;
+                let span = syn::braced!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['{', '}'], span, &content)?;
+                continue;
+            }
+
+            if input.peek(token::Paren) {
+                let content;
+                let span = syn::parenthesized!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['(', ')'], span, &content)?;
+                continue;
+            }
+
+            if input.peek(token::Bracket) {
+                let content;
+                let span = syn::bracketed!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['[', ']'], span, &content)?;
+                continue;
+            }
+
             let tt = input.parse::<TokenTree>()?;
             let cursor = self.buf.cursor(tt.span())?;
             encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
+    }
+
+    fn parse_group(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        [open, close]: [char; 2],
+        span: Span,
+        input: ParseStream,
+    ) -> Result<()> {
+        let cursor = self.buf.cursor(span)?;
+
+        let first = cursor.first_character();
+        encoder.encode_char(open, first.start, first.end)?;
+
+        self.parse_inner(encoder, requirements, input)?;
+
+        let last = cursor.last_character();
+        encoder.encode_char(close, last.start, last.end)
     }
 }
 
-- 
2.43.0


From 2c022b9175116632a43371cd7990159a77f285ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:27 +0000
Subject: [PATCH 22/22] fix: collecting and extending from an iterator reserve
 by its lower bound

size_hint's upper bound is not a promise that so many items come:
(0..usize::MAX).map_while(..) yields few and made extend and from_iter
panic with a capacity overflow.
---
 src/tokens/tokens.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..d3cfc7d 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,8 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1001,8 +1001,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1014,8 +1014,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0

