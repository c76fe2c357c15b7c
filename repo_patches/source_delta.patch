From 01d2e1f56c3ef07cf279fcad46b73e155f3e9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 01/13] fix: invalid escape sequences no longer crash the
 compiler

A malformed \x, \u or \U escape (or a backslash before a newline) was
reported but then emitted as an Escape token, which made unescape_char
panic; the hex digits were also sliced without checking char boundaries.
---
 src/parser/tokenizer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..8d7d690 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -135,18 +135,17 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
             match chars.next() {
                 Some('\n') => {
                     on_error(errors::SyntaxError::TokenInvalidEscape);
-                    (1, TokenKind::Escape)
+                    (1, TokenKind::RawText)
                 },
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
-                        end
+                    if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
+                        (end, TokenKind::Escape)
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-                        2
-                    };
-                    (len, TokenKind::Escape)
+                        (2, TokenKind::RawText)
+                    }
                 } else {
                     (1 + c.len_utf8(), TokenKind::Escape)
                 },
-- 
2.43.0


From 3fd5787c7a8d64454705a67ebb0fa7116096b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 02/13] fix: diagnostic positions after non-ASCII characters

The line/column table had one entry per char but is indexed by byte
offset, so positions were wrong after any multi-byte character.
---
 src/utils/sourcefile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..8f4f4a8 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -117,17 +117,18 @@ impl SourceFile {
     pub(crate) fn index_to_line_col(&self, index: u32) -> (u32, u32) {
         self.line_col_coords.get_or_init(|| {
             let mut coords = Vec::with_capacity(self.src.len() + 1);
-            coords.push((1, 1));
             let mut line = 1;
             let mut col = 1;
             for c in self.src.chars() {
+                // indices into the source are byte offsets, not char offsets
+                coords.extend(std::iter::repeat((line, col)).take(c.len_utf8()));
                 if c == '\n' {
                     line += 1; col = 1;
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
             }
+            coords.push((line, col));
             coords.into_boxed_slice()
         })[index as usize]
     }
-- 
2.43.0


From 44cac062c5a07949e94e91f344a2a850075d0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 03/13] fix: fix_indentation panicked on multi-byte indentation

The char position of the first non-whitespace character was used as a
byte index into the line.
---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From b88e790ac252cca8b6bce008bb17e4ad9d35d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 04/13] fix: deduplicated unique IDs are sanitised identifiers
 too

When an ID was already taken, the suffixed ID was built from the raw
base string, so it might not be a valid lowercase identifier, and
truncating it could panic on a char boundary.
---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..3b726ac 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,7 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 61d4543caa65ebac8c87789fc16485db8582c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 05/13] fix: least upper bound of any type with 'any' is 'any'

'[1, True, 2]' was typed as 'int list'.
---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 6ec318079516f519649999b79b4645c5ba941ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 06/13] fix: implicit arguments are coerced to the parameter
 type

An implicit variable of the wrong type caused an internal compiler
error in native functions, e.g. '@implicit(language=5)' with '@code'.
---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From c5511f4952568614c83044c977ffae49af0ce062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 07/13] fix: integer overflow in native functions is a runtime
 error

---
 src/compiler/highlight.rs   |  7 ++++---
 src/compiler/native.rs      | 19 ++++++++++++-------
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..cfcf0a9 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -180,16 +180,17 @@ impl <'a> LineHighlighter<'a> {
     }
 }
 
-pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
+pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> Option<HTML> {
     let mut out = Vec::new();
     for (i, line) in lines.into_iter().enumerate() {
+        let line_no = start.checked_add(i as Int)?;
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &line_no.to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
-    HTML::from_iter(out)
+    Some(HTML::from_iter(out))
 }
 
 fn no_highlighting(src: &str) -> Vec<HTML> {
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..07dc42e 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,9 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into()))
+                .collect::<Option<Vec<Value>>>()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
@@ -424,7 +428,7 @@ crate::native_defs! {
     }
     
     fn CODE(LANGUAGE: implicit Option<RcStr> = (), CODE_BLOCK: named bool = false, FIRST_LINE_NO: named Int = 1, SOURCE: content RcStr) {
-        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)
+        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)?
     }
     
     fn IMPORT(PATH: content RcStr) {
@@ -494,7 +498,7 @@ impl <'a> Compiler<'a> {
         Ok(undecorated.into())
     }
     
-    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> Tag {
+    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> errors::PapyriResult<Tag> {
         use super::highlight::{syntax_highlight, enumerate_lines};
         
         let default = language.as_ref()
@@ -518,6 +522,7 @@ impl <'a> Compiler<'a> {
         
         tag.content = if is_block {
             enumerate_lines(lines, first_line_no)
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         } else {
             if first_line_no != 1 {
                 self.report(errors::Warning::InlineHighlightEnumerate, call_range);
@@ -528,7 +533,7 @@ impl <'a> Compiler<'a> {
             HTML::from_iter(lines)
         };
         
-        tag
+        Ok(tag)
     }
     
     fn native_fetch_impl(&mut self, path: RcStr) -> errors::PapyriResult<String> {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..a06808e 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -33,6 +33,7 @@ pub enum RuntimeError {
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
     ParseIntError(std::num::ParseIntError),
+    IntegerOverflow,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
-- 
2.43.0


From 14b51f9db2b04dea25f9bf970c110cc8442a96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 08/13] fix: compile_str disables file access, as documented

---
 src/compiler/context.rs     |  5 +++++
 src/compiler/native.rs      | 16 ++++++++++------
 src/errors/runtime_error.rs |  2 ++
 src/lib.rs                  |  1 +
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..d56c182 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -36,6 +36,10 @@ pub struct Context {
     /// The output files collector for this compiler context, if it has one.
     pub out_files: Option<OutFiles<HTML>>,
     
+    /// Determines whether Papyri source code may access the filesystem, other
+    /// than by adding to `out_files`. Enabled by default.
+    pub allow_file_access: bool,
+    
     /// An HTTP client used for net requests, if enabled.
     pub http_client: Option<reqwest::blocking::Client>,
 }
@@ -55,6 +59,7 @@ impl Context {
             natives_frame,
             unique_ids: text::UniqueIDGenerator::new(),
             out_files: out_dir.map(OutFiles::new),
+            allow_file_access: true,
             http_client,
         };
         ctx.compile_stdlib();
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 07dc42e..808cd9d 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -390,7 +390,7 @@ crate::native_defs! {
     
     impl FILE {
         fn LIST(PATH: content RcStr) {
-            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
+            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?;
             let base_path = PATH.trim_end_matches('/');
             relpath::find_papyri_source_files_in_dir(
                     &path,
@@ -406,7 +406,7 @@ crate::native_defs! {
         }
         
         fn READ(PATH: content RcStr) {
-            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
+            let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false)?;
             std::fs::read_to_string(path)
                 .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?
         }
@@ -432,13 +432,13 @@ crate::native_defs! {
     }
     
     fn IMPORT(PATH: content RcStr) {
-        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
+        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true)?;
         let (_, module_exports) = compiler.ctx.load_cached(path)?;
         module_exports
     }
     
     fn INCLUDE(PATH: content RcStr) {
-        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
+        let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true)?;
         let (module_out, module_exports) = compiler.ctx.load_cached(path)?;
         
         for (&k, v) in module_exports.as_ref().iter() {
@@ -554,7 +554,11 @@ impl <'a> Compiler<'a> {
         String::from_utf8(s).unwrap()
     }
     
-    fn resolve_relative_path(&mut self, src_id: SourceFileID, relative_path: &str, add_papyri_suffix: bool) -> std::path::PathBuf {
+    fn resolve_relative_path(&mut self, src_id: SourceFileID, relative_path: &str, add_papyri_suffix: bool) -> errors::PapyriResult<std::path::PathBuf> {
+        if !self.ctx.allow_file_access {
+            return Err(errors::RuntimeError::FileAccessNotAllowed.into());
+        }
+        
         let mut path = self.ctx.source_files
             .get(src_id)
             .path
@@ -566,7 +570,7 @@ impl <'a> Compiler<'a> {
         } else {
             path.push(relative_path);
         }
-        path
+        Ok(path)
     }
     
     fn eval_callback<T: TryConvert>(&mut self, callback: Func, arg: Value, call_range: SourceRange) -> errors::PapyriResult<T> {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index a06808e..f99609c 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -35,6 +35,7 @@ pub enum RuntimeError {
     ParseIntError(std::num::ParseIntError),
     IntegerOverflow,
     FileReadError(std::rc::Rc<str>, std::io::Error),
+    FileAccessNotAllowed,
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
     ParseHtmlError(std::rc::Rc<str>),
@@ -71,6 +72,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
             RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
+            RuntimeError::FileAccessNotAllowed => f.write_str("file access is not enabled"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
             RuntimeError::ParseHtmlError(e) => write!(f, "failed to parse HTML ({e})"),
diff --git a/src/lib.rs b/src/lib.rs
index 5b49100..0f8fbb1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ pub mod utils;
 /// context, use `compiler::Context::compile_synthetic`.
 pub fn compile_str(src: &str) -> Result<String, errors::Diagnostics> {
     let mut ctx = compiler::Context::new(errors::ReportingLevel::Warning, None, None);
+    ctx.allow_file_access = false;
     let result = ctx.compile_synthetic("<string>", src);
     
     if ctx.diagnostics.is_empty() {
-- 
2.43.0


From b90336f53cb424f00b009dac66b29d4e1bf2e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 09/13] fix: report output errors that only occur when buffered
 output is flushed

---
 src/bin/papyri.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..d8ee570 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -118,7 +118,9 @@ impl Main {
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
         if self.ctx.diagnostics.is_empty() {
-            self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
+            let mut stdout = std::io::stdout();
+            self.ctx.render(&result.out, !self.options.text, &mut stdout)
+                .and_then(|_| io::Write::flush(&mut stdout))
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
             self.ctx.diagnostics.print_to_stderr();
@@ -293,6 +295,7 @@ impl Main {
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
         self.ctx.render(&html, !self.options.text, &mut out_writer)
+            .and_then(|_| io::Write::flush(&mut out_writer))
             .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
         
         if !self.options.silent {
-- 
2.43.0


From 39b69d689f36b1e41a625a2e30a08d198c0253cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 10/13] fix: a link around block content is not inline

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From 4386b85d89f4ec264e188fc8a3bf4cb3852121b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 11/13] fix: a coalesced call with no function to call is
 coerced to the expected type

---
 src/compiler/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/func.rs b/src/compiler/func.rs
index 3ef0868..10953d7 100644
--- a/src/compiler/func.rs
+++ b/src/compiler/func.rs
@@ -120,7 +120,8 @@ impl <'a> Compiler<'a> {
             .option_if(call.func.is_coalescing());
         let Some(func) = self.evaluate_name(&call.func, &func_type)?
             .expect_convert::<Option<Func>>() else {
-                return Ok(Value::UNIT);
+                return self.coerce(Value::UNIT, type_hint)
+                    .map_err(|e| self.report(e, call.range));
             };
         
         let bindings = func.bind_call(self, call)
-- 
2.43.0


From 0de712481a468d2c4caefe92ae60ae2458e0e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 12/13] fix: a quote after a comment faces as if the comment
 was not there

---
 src/parser/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 8d7d690..4d22380 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -45,6 +45,8 @@ pub fn tokenize(src: Rc<SourceFile>, strip_comments: bool, diagnostics: &mut err
         
         quote_dir = match kind {
             TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left,
+            // a comment leaves no trace in the output, so it doesn't affect quotes
+            TokenKind::Comment => quote_dir,
             _ => QuoteDir::Right,
         };
         cur = end;
-- 
2.43.0


From c132737da7ad22884c12d041af0d720a8eac82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 13/13] fix: report a content parameter with the same name as
 another parameter

---
 src/parser/func.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..1208c81 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -66,6 +66,7 @@ impl <'a> Parser<'a> {
         let mut positional_spread = false;
         let mut named_count = 0;
         let mut named_spread = false;
+        let mut names_used = NameIDSet::default();
         
         self.skip_whitespace();
         let lpar = self.poll_if_kind(TokenKind::LPar);
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -138,7 +138,10 @@ impl <'a> Parser<'a> {
             (false, dot.range)
         } else {
             let (c, spread_kind, _) = self.parse_param()?;
-            if spread_kind != SpreadKind::NoSpread {
+            if names_used.contains(&c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            } else if spread_kind != SpreadKind::NoSpread {
                 self.report(SyntaxError::ParamContentSpread, c.range);
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
-- 
2.43.0

