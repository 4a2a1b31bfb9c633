From fb811705069c995838df2ee0aa0b05b1dd5ababe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 01/25] fix: infer `auto` line endings from the first line
 ending

A file whose first line ending is `\n` was treated as a CRLF file as soon as
one `\r\n` appeared anywhere, while the documentation promises the first
detected line ending. Normalization no longer depends on the inferred ending.
---
 crates/air_r_formatter/src/r/auxiliary/root.rs |  6 +-----
 crates/line_ending/src/lib.rs                  | 17 +++++++++--------
 crates/lsp/src/documents.rs                    |  7 ++-----
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index 6100fc6..a1e3da8 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -9,7 +9,6 @@ use biome_formatter::write;
 use biome_rowan::Direction;
 use biome_rowan::SyntaxElement;
 use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
-use settings::LineEnding;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRRoot;
@@ -105,10 +104,7 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         // This is also identical to how `fmt_suppressed()`'s default works via
         // `format_suppressed_node()` and `FormatVerbatimNode`. It normalizes line endings
         // right before calling `dynamic_text()` (#507).
-        let text = match line_ending::infer(&text) {
-            LineEnding::Lf => text,
-            LineEnding::Crlf => line_ending::normalize(text),
-        };
+        let text = line_ending::normalize(text);
 
         // Formatting with `format_suppressed_node()` does not work well
         // here because it only formats the node verbatim, not the leading
diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..d5ae378 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -10,12 +10,13 @@ use settings::LineEnding;
 
 static FINDER: LazyLock<memmem::Finder> = LazyLock::new(|| memmem::Finder::new(b"\r\n"));
 
+/// Infer the line ending of a string from its first line ending
 pub fn infer(x: &str) -> LineEnding {
-    match FINDER.find(x.as_bytes()) {
-        // Saw `\r\n`
-        Some(_) => LineEnding::Crlf,
-        // No `\r\n`, or empty file
-        None => LineEnding::Lf,
+    match memchr::memchr(b'\n', x.as_bytes()) {
+        // First line ending is `\r\n`
+        Some(idx) if x[..idx].ends_with('\r') => LineEnding::Crlf,
+        // First line ending is `\n`, or no line endings
+        _ => LineEnding::Lf,
     }
 }
 
@@ -71,9 +72,9 @@ pub fn normalize(x: String) -> String {
 /// Prefer [normalize()] when you have an owned [String] as that modifies in place,
 /// reusing the owned [String]'s existing allocation.
 pub fn normalize_ref(x: &str) -> Cow<'_, str> {
-    match infer(x) {
-        LineEnding::Lf => Cow::Borrowed(x),
-        LineEnding::Crlf => Cow::Owned(normalize(x.to_string())),
+    match FINDER.find(x.as_bytes()) {
+        None => Cow::Borrowed(x),
+        Some(_) => Cow::Owned(normalize(x.to_string())),
     }
 }
 
diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index cd3ed40..111b163 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -51,11 +51,8 @@ impl Document {
         // Detect existing endings
         let endings = line_ending::infer(&contents);
 
-        // Normalize to Unix line endings
-        let contents = match endings {
-            LineEnding::Lf => contents,
-            LineEnding::Crlf => line_ending::normalize(contents),
-        };
+        // Normalize to Unix line endings, even if the first one already is
+        let contents = line_ending::normalize(contents);
 
         // TODO: Handle user requested line ending preference here
         // by potentially overwriting `endings` if the user didn't
-- 
2.43.0


From 480675099f9d13fa3acb3822042493106eb06687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/25] fix: don't include files with a `,` extension by
 default

The character class `[R,r]` has three members.
---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From bd2734f5b02aed1235c4a2b1a93da20eb8e035dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 03/25] fix: never match the root directory against its own
 patterns

Exclude patterns like `*/` matched the directory of the `air.toml` itself, so
that files directly in it were excluded too (or not, depending on whether they
were found by walking the directory).
---
 crates/workspace/src/file_patterns.rs | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index 5b9e2d0..83289c7 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -63,10 +63,15 @@ impl FilePatterns {
     /// We consider a whitelisted file to be `None`, i.e. if `"!file.R"` is supplied, then
     /// we effectively treat that as if we weren't matched at all. We don't advertise the
     /// whitelisting feature though, so this also should not come up much.
+    ///
+    /// The patterns apply to what is below the `root`, and never match the `root` itself.
     pub(crate) fn matched<P>(&self, path: P, is_directory: bool) -> Option<&Glob>
     where
         P: AsRef<Path>,
     {
+        if self.is_root(path.as_ref()) {
+            return None;
+        }
         match self.matcher.matched(path, is_directory) {
             Match::None => None,
             Match::Whitelist(_) => None,
@@ -84,11 +89,26 @@ impl FilePatterns {
     where
         P: AsRef<Path>,
     {
-        match self.matcher.matched_path_or_any_parents(path, is_directory) {
-            Match::None => None,
-            Match::Whitelist(_) => None,
-            Match::Ignore(glob) => Some(glob),
+        // Not `Gitignore::matched_path_or_any_parents()`, which goes on to match the
+        // `root` itself, so that `*/` would match every file directly below the `root`.
+        let mut is_directory = is_directory;
+
+        for path in path.as_ref().ancestors() {
+            if self.is_root(path) {
+                return None;
+            }
+            match self.matcher.matched(path, is_directory) {
+                Match::None => is_directory = true, // walk up
+                Match::Whitelist(_) => return None,
+                Match::Ignore(glob) => return Some(glob),
+            }
         }
+
+        None
+    }
+
+    fn is_root(&self, path: &Path) -> bool {
+        path == self.matcher.path() || path == Path::new("") || path == Path::new(".")
     }
 }
 
-- 
2.43.0


From c4b52b509c66a6831828c994333f32452bdbd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 04/25] fix: don't push a directory that can't be entered

`pushd()` of a directory that isn't there left it on the stack, so that the
guards being dropped after that restored the wrong directory.
---
 xtask/src/glue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtask/src/glue.rs b/xtask/src/glue.rs
index f8cdb78..5538769 100644
--- a/xtask/src/glue.rs
+++ b/xtask/src/glue.rs
@@ -189,8 +189,8 @@ impl Env {
 
     fn pushd(&mut self, dir: PathBuf) {
         let dir = self.cwd().join(dir);
+        env::set_current_dir(&dir).unwrap();
         self.pushd_stack.push(dir);
-        env::set_current_dir(self.cwd()).unwrap();
     }
     fn popd(&mut self) {
         self.pushd_stack.pop().unwrap();
-- 
2.43.0


From ccc190e98e7a0039329bc302c8206d477a0d8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 05/25] fix: remove symbolic links that lead nowhere

`rm_rf()` took a dangling link for nothing, and left it where it was.
---
 xtask/src/glue.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtask/src/glue.rs b/xtask/src/glue.rs
index 5538769..e009898 100644
--- a/xtask/src/glue.rs
+++ b/xtask/src/glue.rs
@@ -100,10 +100,10 @@ impl Drop for Pushenv {
 
 pub fn rm_rf(path: impl AsRef<Path>) -> Result<()> {
     let path = path.as_ref();
-    if !path.exists() {
+    if path.symlink_metadata().is_err() {
         return Ok(());
     }
-    if path.is_file() {
+    if path.is_file() || path.is_symlink() {
         fs2::remove_file(path)
     } else {
         fs2::remove_dir_all(path)
-- 
2.43.0


From 3c9ce94b5198ecef316fc9aceaffd203de4ba65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 06/25] fix: read the output of a process while writing its
 input

`run!(..; <stdin)` hung once the process had written more than a pipe holds
before it had read all of its input.
---
 xtask/src/glue.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xtask/src/glue.rs b/xtask/src/glue.rs
index e009898..5313e37 100644
--- a/xtask/src/glue.rs
+++ b/xtask/src/glue.rs
@@ -7,6 +7,7 @@ use std::{
     io::Write,
     path::{Path, PathBuf},
     process::{Command, Stdio},
+    thread,
 };
 
 use anyhow::{bail, Context, Result};
@@ -138,8 +139,14 @@ fn run_process_inner(cmd: &str, echo: bool, stdin: Option<&[u8]>) -> Result<Stri
         Some(stdin) => {
             command.stdin(Stdio::piped()).stdout(Stdio::piped());
             let mut process = command.spawn()?;
-            process.stdin.take().unwrap().write_all(stdin)?;
-            process.wait_with_output()
+            let mut process_stdin = process.stdin.take().unwrap();
+            // The process may write before it has read everything
+            thread::scope(|scope| {
+                let writer = scope.spawn(move || process_stdin.write_all(stdin));
+                let output = process.wait_with_output();
+                writer.join().unwrap()?;
+                output
+            })
         }
     }?;
     let stdout = String::from_utf8(output.stdout)?;
-- 
2.43.0


From d66d0f909d4433f20e01756bc8f83c108652f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 07/25] fix: don't expand call arguments for empty lines that
 aren't kept

Empty lines before the first non-hole argument are dropped by the
formatter, but they still forced the arguments onto one line each. With
persistent line breaks turned off, formatting the result once more then
gave a different text.
---
 .../air_r_formatter/src/r/auxiliary/call_arguments.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 7f14362..f0fc814 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -550,12 +550,12 @@ impl Format<RFormatContext> for RCallLikeArguments {
             .map(|(index, element)| FormatCallArgument::new(element, index == last_index))
             .collect();
 
-        let has_empty_line = leading_holes
+        // Empty lines before the first non-hole argument aren't retained, so they must
+        // not be used to decide on the layout.
+        let has_empty_line = arguments
             .iter()
-            .any(|leading_hole| leading_hole.leading_lines() > 1)
-            || arguments
-                .iter()
-                .any(|argument| argument.leading_lines() > 1);
+            .skip(1)
+            .any(|argument| argument.leading_lines() > 1);
 
         // Special case where the user has requested a fully empty line between
         // some of their arguments. Let's respect that and use it as an
-- 
2.43.0


From b7cb1aa68e749145d20e032f3087161babd20c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:14 +0000
Subject: [PATCH 08/25] fix: don't let holes alone ask for expanded call
 arguments

A line break before the only holes of a call, as in `fn(\n,)`, has no
argument to persist before and isn't kept, but it expanded every group
around the call, so that formatting the result gave a different text.
---
 crates/air_r_formatter/src/r/auxiliary/call_arguments.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index f0fc814..732a1bc 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -684,6 +684,11 @@ fn has_persistent_line_break(
         return false;
     }
 
+    // With nothing but holes there is no argument for the line break to persist before
+    if arguments.is_empty() {
+        return false;
+    }
+
     // Do any leading holes have leading lines?
     // We treat leading holes as "invisible" so a leading line in the hole
     // implies a leading line in the first argument.
-- 
2.43.0


From 8cb312652cd018b409c723ca2469245d8c231e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 09/25] fix: keep comments moved out of curly-curly from
 expanding it

Comments between the braces are written before and after the curly-curly
but were part of its group, so that the group expanded for them. Once
formatted they're outside of it, and formatting again gave a different
text.
---
 .../src/r/auxiliary/braced_expressions.rs        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs b/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
index e61a472..4d746ae 100644
--- a/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
@@ -268,14 +268,16 @@ fn fmt_curly_curly(node: &RCurlyCurly, f: &mut RFormatter) -> FormatResult<()> {
     // - We push comments between the `} }` as trailing on the second `}`
     write!(
         f,
-        [group(&format_args![
+        [
             format_leading_comments(node_inner),
-            outer_l_curly_token.format(),
-            inner_l_curly_token.format(),
-            soft_space_or_block_indent(&expression.format()),
-            inner_r_curly_token.format(),
-            outer_r_curly_token.format(),
+            group(&format_args![
+                outer_l_curly_token.format(),
+                inner_l_curly_token.format(),
+                soft_space_or_block_indent(&expression.format()),
+                inner_r_curly_token.format(),
+                outer_r_curly_token.format(),
+            ]),
             format_trailing_comments(node_inner),
-        ])]
+        ]
     )
 }
-- 
2.43.0


From 8c0fdef4720c48ea90a4a9ae63d4ab618cc35a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 10/25] fix: don't format calls with commented arguments as
 test calls

---
 crates/air_r_formatter/src/r/auxiliary/call_arguments.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 732a1bc..beb6742 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -502,8 +502,13 @@ impl Format<RFormatContext> for RCallLikeArguments {
         }
 
         // Special case where we have a test call where we never want to break
-        // even if we exceed the line length. Only applies to `Call` variants.
-        if let RCallLikeArguments::Call(node) = self {
+        // even if we exceed the line length. Only applies to `Call` variants. Comments
+        // on the arguments force line breaks, so those calls aren't special cased.
+        if let RCallLikeArguments::Call(node) = self
+            && !items
+                .iter()
+                .any(|item| item.is_ok_and(|item| f.comments().has_comments(item.syntax())))
+        {
             let is_test_call = node
                 .parent::<RCall>()
                 .map_or(Ok(false), |call| call.is_test_call())?;
-- 
2.43.0


From 6ff845c5bc3009534439207b8e75287083469f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 11/25] fix: keep comments around an assignment operator where
 they are

---
 .../air_r_formatter/src/r/auxiliary/binary_expression.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/binary_expression.rs b/crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
index 71c05d4..1c37b77 100644
--- a/crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
@@ -209,8 +209,15 @@ fn fmt_binary_assignment(
     // `format_assignment_rhs()`
     let table = f.comments().has_table_directive(node.syntax());
 
+    // A comment between `left` and `right` always forces the line break after the operator,
+    // otherwise it would end up somewhere else in `right` the next time around
+    let has_comments = f.comments().has_trailing_comments(left.syntax())
+        || f.comments().has_leading_comments(right.syntax());
+
     let right_format = format_with(|f| {
-        if binary_assignment_has_persistent_line_break(&operator, &right, f.options()) {
+        if has_comments
+            || binary_assignment_has_persistent_line_break(&operator, &right, f.options())
+        {
             let right = match &right {
                 AnyRExpression::RBinaryExpression(right) => {
                     Either::Left(right.format().with_options(FormatRBinaryExpressionOptions {
-- 
2.43.0


From 91734a1064e0244b7cac5a7cf79058bfd4bfe937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 12/25] fix: don't lay out table rows that have comments inside
 their cells

---
 crates/air_r_formatter/src/call_arguments_table.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 3d6affa..3fc7c3a 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -6,7 +6,7 @@ use air_r_syntax::{
 };
 
 use biome_formatter::{FormatElement, RemoveSoftLinesBuffer, format_args, write};
-use biome_rowan::{AstSeparatedElement, AstSeparatedList};
+use biome_rowan::{AstNode, AstSeparatedElement, AstSeparatedList};
 
 const DOT_WIDTH: usize = 1;
 
@@ -449,6 +449,18 @@ impl ArgKind {
     }
 
     fn parse_other(arg: &RArgument, f: &mut RFormatter) -> FormatResult<Option<ArgKind>> {
+        // Comments inside the argument need a line break after them, but everything in a
+        // row is on the same line. Comments on the argument itself are fine.
+        let comments = f.comments();
+        if arg
+            .syntax()
+            .descendants()
+            .skip(1)
+            .any(|node| comments.has_comments(&node))
+        {
+            return Ok(None);
+        }
+
         // Format with flat layout by disabling soft line breaks
         let mut buffer = RemoveSoftLinesBuffer::new(f);
         let mut recording = buffer.start_recording();
-- 
2.43.0


From a86b08d86060e3860968229d9814df51a4b4af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 13/25] fix: don't end the line after a commented unary operand

---
 .../air_r_formatter/src/r/auxiliary/unary_expression.rs  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
index af6131c..02c36d4 100644
--- a/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
@@ -4,6 +4,7 @@ use air_r_syntax::AnyRExpression;
 use air_r_syntax::RSyntaxKind;
 use air_r_syntax::RSyntaxToken;
 use air_r_syntax::{RUnaryExpression, RUnaryExpressionFields};
+use biome_formatter::format_args;
 use biome_formatter::write;
 
 #[derive(Debug, Clone, Default)]
@@ -22,8 +23,12 @@ impl FormatNodeRule<RUnaryExpression> for FormatRUnaryExpression {
                 && !f.comments().has_skip_directive(argument.syntax())
             {
                 // If an existing comment separates the operator and its argument, we are
-                // forced to line break
-                write!(f, [soft_block_indent(&argument.format())])
+                // forced to line break before the argument. A line break after it would
+                // end the expression.
+                write!(
+                    f,
+                    [indent(&format_args![soft_line_break(), argument.format()])]
+                )
             } else {
                 // Otherwise we never line break
                 write!(f, [argument.format()])
-- 
2.43.0


From 67ca9d7fcbf32c1c77ddd4271a4d32ba501c3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:40 +0000
Subject: [PATCH 14/25] fix: don't group a last argument with comments after
 its name

---
 .../src/r/auxiliary/call_arguments.rs              | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index beb6742..56dde0d 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -1140,14 +1140,14 @@ fn should_group_last_argument(list: &RArgumentList, comments: &RComments) -> Syn
         return Ok(false);
     }
 
-    // If this is a named argument and the `name_clause` has comments, not
-    // groupable. This avoids idempotence issues. Plus, the comments by
-    // definition make it non groupable. The `comments.rs` handlers should
-    // ensure that the underlying `name` node inside `name_clause` does not
-    // have any comments (they get put on `name_clause` instead), so we should
-    // not need to check that.
+    // If this is a named argument and the `name_clause` or the underlying `name`
+    // has comments, not groupable. This avoids idempotence issues. Plus, the
+    // comments by definition make it non groupable. The `comments.rs` handlers
+    // put comments after the `=` on the `name_clause`, and comments between the
+    // name and the `=` on the `name`.
     if let Some(name_clause) = last.name_clause()
-        && comments.has_comments(name_clause.syntax())
+        && (comments.has_comments(name_clause.syntax())
+            || comments.has_comments(name_clause.name()?.syntax()))
     {
         return Ok(false);
     }
-- 
2.43.0


From 68660a5429bebfeaee853d2ab75daeb8f10a0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:39 +0000
Subject: [PATCH 15/25] fix: apply text edits at the same position in order

---
 crates/aether_lsp_utils/src/proto/from_proto.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index 7eaabe2..ec71ea2 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -137,20 +137,22 @@ pub fn apply_text_edits(
     line_index: &mut LineIndex,
     position_encoding: PositionEncoding,
 ) {
-    // Sort edits in reverse order by start position to ensure that edits
+    // Sort edits by start position and apply them in reverse to ensure that edits
     // applied later in the document don’t shift the ranges of edits earlier in
     // the document. This way, edits in the bottom don't invalidate the
     // positions of edits at the top. Use stable sort to preserve the original
     // order for edits at the same position (which defines insertion order per
-    // LSP spec).
+    // LSP spec). Since each edit goes in front of the ones applied before it at
+    // the same position, these must be applied in reverse as well.
     edits.sort_by(|a, b| {
         let a_start = a.range.start;
         let b_start = b.range.start;
-        b_start
+        a_start
             .line
-            .cmp(&a_start.line)
-            .then_with(|| b_start.character.cmp(&a_start.character))
+            .cmp(&b_start.line)
+            .then_with(|| a_start.character.cmp(&b_start.character))
     });
+    edits.reverse();
 
     let changes: Vec<lsp_types::TextDocumentContentChangeEvent> = edits
         .into_iter()
-- 
2.43.0


From edae657113139ba31724956f64c654f52863631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:31 +0000
Subject: [PATCH 16/25] fix: keep a document's line endings when formatting
 with a configured line ending

---
 crates/lsp/src/handlers_format.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..fb5b046 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -47,7 +47,11 @@ pub(crate) fn document_formatting(
     let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
 
     match format_source_with_parse(&doc.contents, &doc.parse, format_options)? {
-        FormattedSource::Changed(mut formatted) => {
+        FormattedSource::Changed(formatted) => {
+            // Like the document's contents, edits use `\n` until they are sent to the client,
+            // whatever the configured line ending. They are sent with the document's own.
+            let mut formatted = line_ending::normalize(formatted);
+
             // For notebook cells, remove the trailing newline that the formatter adds.
             // The formatter always adds a trailing newline for R files (which is correct
             // for standalone files), but notebook cells should not have this trailing newline
@@ -150,7 +154,8 @@ pub(crate) fn document_range_formatting(
         return Ok(None);
     };
 
-    let mut format_text = format_info.into_code();
+    // Edits use `\n` until they are sent to the client with the document's line ending
+    let mut format_text = line_ending::normalize(format_info.into_code());
 
     // Remove last hard break line from our artifical expression list
     format_text.pop();
-- 
2.43.0


From efc5f46815b244f1d2668f0ebc33f3650c97563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:33 +0000
Subject: [PATCH 17/25] fix: keep the indentation after two empty lines when
 formatting a range

---
 crates/air_r_formatter/src/joiner_ext.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/joiner_ext.rs b/crates/air_r_formatter/src/joiner_ext.rs
index 76427a4..9a87095 100644
--- a/crates/air_r_formatter/src/joiner_ext.rs
+++ b/crates/air_r_formatter/src/joiner_ext.rs
@@ -65,7 +65,16 @@ where
                     {
                         #[allow(clippy::comparison_chain)]
                         if n_lines > 2 {
-                            write!(self.fmt, [empty_line(), text("\n")])?;
+                            // The additional newline must not be indented. The line break
+                            // at the end then restores the indentation for what follows.
+                            write!(
+                                self.fmt,
+                                [
+                                    dedent_to_root(&empty_line()),
+                                    text("\n"),
+                                    hard_line_break()
+                                ]
+                            )?;
                         } else if n_lines == 2 {
                             write!(self.fmt, [empty_line()])?;
                         } else {
-- 
2.43.0


From 88b49b374910aa62d39d36262443b267d570b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:33 +0000
Subject: [PATCH 18/25] fix: format ranges that end on an empty line

---
 crates/lsp/src/handlers_format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index fb5b046..bbd745d 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -214,13 +214,19 @@ fn find_deepest_enclosing_logical_lines(node: RSyntaxNode, range: TextRange) ->
     let end_lists = find_expression_lists(&node, range.end(), true);
 
     // Both vectors of lists should have a common prefix, starting from the
-    // program's expression list. As soon as the lists diverge we stop.
+    // program's expression list. As soon as the lists diverge we stop. An end of the
+    // range might not be in any logical line (e.g. on an empty line), but it's always
+    // included in the program's expression list.
     let Some(list) = start_lists
         .into_iter()
         .zip(end_lists)
         .take_while(|pair| pair.0 == pair.1)
         .map(|pair| pair.0)
         .last()
+        .or_else(|| {
+            node.children()
+                .find(|child| child.kind() == RSyntaxKind::R_EXPRESSION_LIST)
+        })
     else {
         // Should not happen as the range is always included in the program's expression list
         tracing::warn!("Can't find common list parent");
-- 
2.43.0


From 36f1fca64f7659ce9c8804759ba016bec62bbd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:46 +0000
Subject: [PATCH 19/25] fix: don't format ranges of files that are skipped, or
 their skip comments

---
 crates/air_r_formatter/src/lib.rs             |  1 +
 .../air_r_formatter/src/r/auxiliary/root.rs   | 64 ++++++++++++-------
 crates/lsp/src/handlers_format.rs             | 12 ++++
 3 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/crates/air_r_formatter/src/lib.rs b/crates/air_r_formatter/src/lib.rs
index 4cf5022..f3029cd 100644
--- a/crates/air_r_formatter/src/lib.rs
+++ b/crates/air_r_formatter/src/lib.rs
@@ -17,6 +17,7 @@ use crate::comments_ext::CommentsExt;
 use crate::context::RFormatContext;
 use crate::context::RFormatOptions;
 use crate::cst::FormatRSyntaxNode;
+pub use crate::r::auxiliary::root::is_skipped_file;
 
 pub(crate) mod call_arguments_table;
 pub mod comments;
diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index a1e3da8..9cb9559 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -22,6 +22,41 @@ impl FormatRRoot {
     }
 }
 
+/// Is `node` skipped as a whole, i.e. is there a `# fmt: skip file` comment at its top?
+///
+/// Callers that format parts of a file have to check this themselves.
+pub fn is_skipped_file(node: &RRoot) -> bool {
+    let Some(token) = node
+        .expressions()
+        .first()
+        .and_then(|child| child.syntax().first_token())
+    else {
+        return false;
+    };
+
+    let comments: Vec<_> = token
+        .leading_trivia()
+        .pieces()
+        .filter_map(|piece| piece.as_comments())
+        .collect();
+
+    has_suppression_directive(comments.iter().map(|comment| comment.text()))
+}
+
+fn has_suppression_directive<'a>(mut comments: impl Iterator<Item = &'a str>) -> bool {
+    let Some(first_line) = comments.next() else {
+        return false;
+    };
+
+    // The very first line is allowed to be `Generated by:`
+    let directive =
+        parse_special_skip_file(first_line).or_else(|| parse_comment_directive(first_line));
+
+    FormatRRoot::is_suppression_directive(directive)
+        || comments
+            .any(|comment| FormatRRoot::is_suppression_directive(parse_comment_directive(comment)))
+}
+
 impl FormatNodeRule<RRoot> for FormatRRoot {
     fn fmt_fields(&self, node: &RRoot, f: &mut RFormatter) -> FormatResult<()> {
         let RRootFields {
@@ -54,29 +89,12 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         };
 
         // Only consider leading comments of the first node in the file
-        let mut comments = comments
-            .leading_comments(child.syntax())
-            .iter()
-            .map(|cmt| cmt.piece().text());
-
-        let Some(first_line) = comments.next() else {
-            return false;
-        };
-
-        // The very first line is allowed to be `Generated by:`
-        if Self::is_suppression_directive(
-            parse_special_skip_file(first_line).or_else(|| parse_comment_directive(first_line)),
-        ) {
-            return true;
-        }
-
-        for comment in comments {
-            if Self::is_suppression_directive(parse_comment_directive(comment)) {
-                return true;
-            }
-        }
-
-        false
+        has_suppression_directive(
+            comments
+                .leading_comments(child.syntax())
+                .iter()
+                .map(|cmt| cmt.piece().text()),
+        )
     }
 
     // The default handling of suppressed nodes in `FormatNodeRule::fmt()`
diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index bbd745d..4ae3769 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -1,3 +1,4 @@
+use air_r_formatter::is_skipped_file;
 use air_r_syntax::{RExpressionList, RSyntaxKind, RSyntaxNode, WalkEvent};
 use biome_rowan::{AstNode, Language, SyntaxElement};
 use biome_text_size::{TextRange, TextSize};
@@ -106,6 +107,11 @@ pub(crate) fn document_range_formatting(
         return Ok(None);
     }
 
+    if is_skipped_file(&doc.parse.tree()) {
+        // Parts of a file with `# fmt: skip file` are skipped too
+        return Ok(None);
+    }
+
     let range = from_proto::text_range(params.range, &doc.line_index, doc.position_encoding)?;
 
     let logical_lines = find_deepest_enclosing_logical_lines(doc.parse.syntax(), range);
@@ -142,6 +148,12 @@ pub(crate) fn document_range_formatting(
     let eof = air_r_syntax::RSyntaxToken::new_detached(RSyntaxKind::EOF, "", vec![], vec![]);
     let root = air_r_factory::r_root(list, eof).build();
 
+    if is_skipped_file(&root) {
+        // The comment isn't at the top of the file but it is at the top of our artificial
+        // root, which would be taken over verbatim, with the whitespace in front of it
+        return Ok(None);
+    }
+
     let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
 
     let format_info = biome_formatter::format_sub_tree(
-- 
2.43.0


From eded82a66beb82a06587b7e2424f4d8c22ca390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:29 +0000
Subject: [PATCH 20/25] fix: read the terminal PATH setting by its name,
 addExecutableToTerminalPath

---
 editors/code/src/environment.ts | 2 +-
 editors/code/src/settings.ts    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/editors/code/src/environment.ts b/editors/code/src/environment.ts
index 480dfcc..c73d4d9 100644
--- a/editors/code/src/environment.ts
+++ b/editors/code/src/environment.ts
@@ -67,7 +67,7 @@ export class PathEnvironmentVariableManager implements vscode.Disposable {
 			this.workspaceFolder,
 		);
 
-		if (workspaceSettings.addExecutableToPath) {
+		if (workspaceSettings.addExecutableToTerminalPath) {
 			this.prepend(this.executableDirectory);
 		} else {
 			this.delete();
diff --git a/editors/code/src/settings.ts b/editors/code/src/settings.ts
index 74a49b8..fa39a96 100644
--- a/editors/code/src/settings.ts
+++ b/editors/code/src/settings.ts
@@ -15,7 +15,7 @@ export type InitializationOptions = {
 export type WorkspaceSettings = {
 	executableStrategy: ExecutableStrategy;
 	executablePath?: string;
-	addExecutableToPath: boolean;
+	addExecutableToTerminalPath: boolean;
 };
 
 export function getInitializationOptions(
@@ -42,7 +42,8 @@ export function getWorkspaceSettings(
 		executableStrategy:
 			config.get<ExecutableStrategy>("executableStrategy") ?? "bundled",
 		executablePath: config.get<string>("executablePath"),
-		addExecutableToPath: config.get<boolean>("addExecutableToPath") ?? true,
+		addExecutableToTerminalPath:
+			config.get<boolean>("addExecutableToTerminalPath") ?? true,
 	};
 }
 
-- 
2.43.0


From d20ad809a0e32664adf859df70f1443eb1bba976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:29 +0000
Subject: [PATCH 21/25] fix: find open documents by what their URI says, as URI
 objects are never the same

---
 editors/code/src/lsp.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/lsp.ts b/editors/code/src/lsp.ts
index 6abe05b..de2cd38 100644
--- a/editors/code/src/lsp.ts
+++ b/editors/code/src/lsp.ts
@@ -162,7 +162,8 @@ export class Lsp {
 						// call `openDocument()` here, we just look for an
 						// already opened one.
 						const document = vscode.workspace.textDocuments.find(
-							(document) => document.uri === uri,
+							(document) =>
+								document.uri.toString() === uri.toString(),
 						);
 
 						// If there was no document, it means it was closed in
-- 
2.43.0


From 7c163b25676a192b6f3d09a2cd251f277429dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:29 +0000
Subject: [PATCH 22/25] fix: look up file settings by URI, so that documents of
 other schemes and escaped paths are found

---
 editors/code/src/notification/sync-file-settings.ts | 9 +++++----
 editors/code/src/utils.ts                           | 9 ---------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/editors/code/src/notification/sync-file-settings.ts b/editors/code/src/notification/sync-file-settings.ts
index 5ac086a..689af2b 100644
--- a/editors/code/src/notification/sync-file-settings.ts
+++ b/editors/code/src/notification/sync-file-settings.ts
@@ -1,6 +1,5 @@
 import * as vscode from "vscode";
 import * as lc from "vscode-languageclient/node";
-import { normalizePath } from "../utils";
 
 export interface SyncFileSettingsParams {
 	file_settings: FileSettings[];
@@ -43,8 +42,10 @@ export class FileSettingsState {
 		this.settings.clear();
 
 		for (const fileSettings of params.file_settings) {
-			const path = normalizePath(fileSettings.url);
-			this.settings.set(path, fileSettings.format);
+			// Parse the URL to get rid of differences in encoding between the
+			// server and the client
+			const uri = vscode.Uri.parse(fileSettings.url);
+			this.settings.set(uri.toString(), fileSettings.format);
 		}
 
 		// Apply right away to the active text editor. We also have a handler
@@ -57,7 +58,7 @@ export class FileSettingsState {
 
 	public apply(editor: vscode.TextEditor) {
 		const uri = editor.document.uri;
-		const settings = this.settings.get(uri.path);
+		const settings = this.settings.get(uri.toString());
 
 		if (settings) {
 			const insertSpaces = settings.indent_style === "space";
diff --git a/editors/code/src/utils.ts b/editors/code/src/utils.ts
index c3ba2a2..12604b8 100644
--- a/editors/code/src/utils.ts
+++ b/editors/code/src/utils.ts
@@ -1,18 +1,9 @@
 import * as vscode from "vscode";
-import * as url from "url";
-import * as path from "path";
 
 export function sleep(ms: number) {
 	return new Promise((resolve) => setTimeout(resolve, ms));
 }
 
-export function normalizePath(file: string): string {
-	if (file.startsWith("file:///")) {
-		file = url.fileURLToPath(file);
-	}
-	return path.normalize(file);
-}
-
 /**
  * Determine whether or not a file exists
  *
-- 
2.43.0


From c4cdf2d54522cf6fc94fc8d1e7003d3130146765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:40 +0000
Subject: [PATCH 23/25] fix: act on the workspace folder that was picked, not
 on the first one of its name

---
 editors/code/src/workspace.ts | 43 +++++++++++------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 8f8b3bf..8bcd6ad 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -1,7 +1,6 @@
 import path from "path";
 import * as vscode from "vscode";
 import * as fs from "fs-extra";
-import * as output from "./output";
 
 /*
  * Locate the "root" workspace folder
@@ -95,36 +94,20 @@ export async function selectWorkspaceFolder(): Promise<
 async function selectWorkspaceFolderFromQuickPick(
 	workspaceFolders: readonly vscode.WorkspaceFolder[],
 ): Promise<vscode.WorkspaceFolder | undefined> {
-	// Show the workspace names
-	const workspaceFolderNames = workspaceFolders.map(
-		(workspaceFolder) => workspaceFolder.name,
-	);
-
-	const workspaceFolderName = await vscode.window.showQuickPick(
-		workspaceFolderNames,
-		{
-			canPickMany: false,
-			title: "Select a workspace folder",
-		},
-	);
-
-	if (!workspaceFolderName) {
-		// User bailed from the quick pick
-		return undefined;
-	}
-
-	// Match selected name back to the workspace folder
-	for (let workspaceFolder of workspaceFolders) {
-		if (workspaceFolder.name === workspaceFolderName) {
-			return workspaceFolder;
-		}
-	}
+	// Show the workspace names, and the paths since names aren't unique
+	const items = workspaceFolders.map((workspaceFolder) => ({
+		label: workspaceFolder.name,
+		description: workspaceFolder.uri.fsPath,
+		workspaceFolder,
+	}));
+
+	const item = await vscode.window.showQuickPick(items, {
+		canPickMany: false,
+		title: "Select a workspace folder",
+	});
 
-	// Should never get here
-	output.log(
-		`Matched a workspace folder name, but unexpectedly can't find corresponding workspace folder. Folder name: ${workspaceFolderName}.`,
-	);
-	return undefined;
+	// `undefined` if the user bailed from the quick pick
+	return item?.workspaceFolder;
 }
 
 /**
-- 
2.43.0


From 7021ca63c13a5e3d4eeeba9b0cc4ce1e43a8d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:40 +0000
Subject: [PATCH 24/25] fix: compare whole path components to find the
 documents in a workspace folder

---
 editors/code/src/workspace.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 8bcd6ad..242da6d 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -148,6 +148,16 @@ export async function saveAllDirtyWorkspaceTextDocuments(
 	return saved.every((save) => save);
 }
 
+// Compares whole path components, i.e. `/a/foo2/x.R` isn't within `/a/foo`
+function isWithin(file: string, directory: string): boolean {
+	const relative = path.relative(directory, file);
+	return (
+		relative !== ".." &&
+		!relative.startsWith(".." + path.sep) &&
+		!path.isAbsolute(relative)
+	);
+}
+
 function dirtyWorkspaceTextDocuments(
 	workspaceFolder: vscode.WorkspaceFolder,
 ): vscode.TextDocument[] {
@@ -167,7 +177,7 @@ function dirtyWorkspaceTextDocuments(
 			return false;
 		}
 
-		if (!document.uri.fsPath.startsWith(workspaceFolder.uri.fsPath)) {
+		if (!isWithin(document.uri.fsPath, workspaceFolder.uri.fsPath)) {
 			// The document must live "under" the chosen workspace folder for us to care about it
 			return false;
 		}
-- 
2.43.0


From 78410434766e41de937d71446fbcde24c0ca7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:29 +0000
Subject: [PATCH 25/25] fix: accept the log level "warning", which VS Code
 offers

---
 crates/lsp/src/logging.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lsp/src/logging.rs b/crates/lsp/src/logging.rs
index a69396b..aca0ead 100644
--- a/crates/lsp/src/logging.rs
+++ b/crates/lsp/src/logging.rs
@@ -350,6 +350,8 @@ fn resolve_dependency_log_levels(dependency_log_levels: Option<String>) -> Optio
 #[serde(rename_all = "lowercase")]
 pub(crate) enum LogLevel {
     Error,
+    // VS Code's `air.logLevel` spells this one out
+    #[serde(alias = "warning")]
     Warn,
     #[default]
     Info,
-- 
2.43.0

