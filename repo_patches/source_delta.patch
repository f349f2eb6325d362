From 5adedead9dd9bb487c1508b0027f889ec404971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 01/55] fix: malformed R entry in DESCRIPTION's Depends no
 longer panics or hides the required version

---
 crates/jarl-core/src/description.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..b9c92c4 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -27,7 +27,7 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
+                    .filter(|s| is_r_dependency(s))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -37,13 +37,20 @@ impl Description {
     }
 }
 
+/// Is this entry of the Depends field about R itself, e.g. "R (>= 4.3.0)" or
+/// "R(>= 4.3.0)", and not about a package whose name starts with "R"?
+fn is_r_dependency(dep: &str) -> bool {
+    dep.strip_prefix('R')
+        .is_some_and(|rest| rest.trim_start().starts_with('('))
+}
+
 /// Extract version number from an R dependency string like "R (>= 4.3.0)"
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
     if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
+        && let Some(len) = dep[start..].find(')')
     {
-        let version_part = &dep[start + 1..end];
+        let version_part = &dep[start + 1..start + len];
         // Remove >= operator and extract just the version number
         let version = version_part.replace(">=", "").trim().to_string();
 
@@ -53,7 +60,7 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     }
 
     // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    None
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 6dc44ef3ad1afa2257ce29bf3ae0b8a5664f7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 02/55] fix: answer code action requests whose parameters are
 malformed

---
 crates/jarl-lsp/src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..01ca90f 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -13,7 +13,7 @@ use std::thread;
 use std::time::Instant;
 
 use crate::LspResult;
-use crate::client::{Client, ToLspError};
+use crate::client::{Client, ToLspError, error_codes};
 use crate::document::TextDocument;
 use crate::lint;
 use crate::session::{DocumentSnapshot, Session, negotiate_position_encoding};
@@ -226,7 +226,18 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        // Every request must be answered, including malformed ones
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid code action parameters: {e}")
+                                .to_lsp_error_with_code(error_codes::INVALID_PARAMS),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From b9667bcd533a57870e400a54983eb7a66c4cd42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 03/55] fix: suppression edits use the negotiated position
 encoding

---
 crates/jarl-lsp/src/server.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 01ca90f..e4e9d6c 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -571,7 +571,12 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
+            let insert_pos = crate::lint::byte_offset_to_lsp_position(
+                insert_point.offset,
+                content,
+                snapshot.position_encoding(),
+            )
+            .ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -656,7 +661,12 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            chunk.start_byte,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -679,15 +689,6 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
     /// Get the text of a specific line
     fn get_line_text(content: &str, line_number: usize) -> Option<String> {
         content.lines().nth(line_number).map(|s| s.to_string())
-- 
2.43.0


From 1a2681720b746f7ddb1c40d95ab12dad40b6525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 04/55] fix: reject UTF-8 positions that split a character

---
 crates/jarl-lsp/src/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..bf07d3f 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -218,6 +218,13 @@ impl TextDocument {
                         line
                     ));
                 }
+                if !line_content.is_char_boundary(character) {
+                    return Err(anyhow!(
+                        "Character {} is in the middle of a UTF-8 sequence on line {}",
+                        character,
+                        line
+                    ));
+                }
                 character
             }
             PositionEncoding::UTF16 => {
-- 
2.43.0


From 00749eb0c98d5d3dfe98984ad5f3c3f4c173f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 05/55] fix: apply document changes in order and all or none

---
 crates/jarl-lsp/src/document.rs | 37 +++++++++++----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index bf07d3f..04297f6 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,19 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
+        // Each change is relative to the text left by the previous ones. Work on
+        // a copy so that a rejected change leaves the document untouched.
+        let mut updated = self.clone();
+        for (i, change) in changes.into_iter().enumerate() {
             let range = change.range.ok_or_else(|| {
                 anyhow!(
                     "Full document replacement not supported - only incremental changes allowed"
                 )
             })?;
 
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +154,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +162,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From acb46eed77fd9370a802f2e5f40d4c11e6b850a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 06/55] fix: column of diagnostics on the second line when the
 first one is blank

---
 crates/jarl-core/src/utils.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..65240aa 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -67,18 +67,15 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
 pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
     let new_lines_before = loc_new_lines
         .iter()
-        .filter(|x| *x <= &start)
+        .filter(|x| *x < &start)
         .collect::<Vec<&usize>>();
     let n_new_lines = new_lines_before.len();
-    let last_new_line = match new_lines_before.last() {
-        Some(x) => **x,
-        None => 0_usize,
-    };
 
-    let col: usize = if last_new_line == 0 {
-        start
-    } else {
-        start - last_new_line - 1
+    // Note that the file may start with a new line, i.e. `last_new_line` may
+    // be 0.
+    let col: usize = match new_lines_before.last() {
+        Some(last_new_line) => start - **last_new_line - 1,
+        None => start,
     };
     let row: usize = n_new_lines + 1;
     (row, col)
-- 
2.43.0


From a33d8eb7931a8cc28499fe6a479dba918f82c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 07/55] fix: location of diagnostics about comments after the
 last expression

---
 crates/jarl-core/src/check.rs |  4 ++--
 crates/jarl-core/src/utils.rs | 21 ++++-----------------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..ff7535b 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,7 +211,7 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
+    let loc_new_lines = find_new_lines_from_content(contents);
     let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
 
     Ok(diagnostics)
@@ -350,6 +350,6 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
             .unwrap_or(true)
     });
 
-    let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
+    let loc_new_lines = find_new_lines_from_content(contents);
     Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 65240aa..587360d 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -29,26 +29,13 @@ macro_rules! unwrap_or_return_none {
 
 /// Find byte positions of newline characters in a string.
 ///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
+/// Used to compute line/column locations in the original file. This takes the
+/// file content rather than the expressions it contains because diagnostics may
+/// also be about comments located after the last expression.
 pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
     content.match_indices('\n').map(|(i, _)| i).collect()
 }
 
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
 /// Takes the start of the range of a Diagnostic and the indices for the new
 /// lines. Returns the (row, col) position of the Diagnostic in the file.
 ///
-- 
2.43.0


From 37baf872b1c8f61643d7fa8760d57dddd8dd4afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 08/55] fix: report parsing errors with the GitHub output
 format

---
 crates/jarl/src/output_format.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..871013e 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -247,9 +247,21 @@ impl Emitter for GithubEmitter {
         &self,
         writer: &mut W,
         diagnostics: &[&Diagnostic],
-        _errors: &[(String, anyhow::Error)],
+        errors: &[(String, anyhow::Error)],
     ) -> anyhow::Result<()> {
         let mut writer = BufWriter::new(writer);
+
+        // First, report all parsing errors (on stderr, so that stdout only
+        // contains Github annotations).
+        for (_path, err) in errors {
+            let root_cause = err.chain().last().unwrap();
+            if root_cause.is::<jarl_core::error::ParseError>() {
+                eprintln!("{}: {}", "Error".red().bold(), root_cause);
+            } else {
+                eprintln!("{}: {}", "Error".red().bold(), err);
+            }
+        }
+
         for diagnostic in diagnostics {
             let (row, col) = match diagnostic.location {
                 Some(loc) => (loc.row(), loc.column() + 1), // Convert to 1-based for display
-- 
2.43.0


From 9549d7737cfc06d26072614bb6842e8370d7ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 09/55] fix: report files that cannot be analysed with
 --statistics and --add-jarl-ignore

---
 crates/jarl/src/commands/check.rs | 20 +++++++++++++---
 crates/jarl/src/output_format.rs  | 39 ++++++++++++-------------------
 crates/jarl/src/statistics.rs     |  8 +++++++
 3 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..9ae288c 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -22,7 +22,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -131,7 +133,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        // There is no emitter in this mode.
+        print_errors(&all_errors);
+        let status = add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path)?;
+        if !all_errors.is_empty() {
+            return Ok(ExitStatus::Error);
+        }
+        return Ok(status);
     }
 
     let (unused_fn_hidden, unused_fn_count) =
@@ -146,7 +154,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        // There is no emitter in this mode.
+        print_errors(&all_errors);
+        return print_statistics(
+            &all_diagnostics_flat,
+            !all_errors.is_empty(),
+            parent_config_path,
+        );
     }
 
     let mut stdout = std::io::stdout();
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index 871013e..223eb3a 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -83,6 +83,18 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
     }
 }
 
+/// Prints the errors met when reading or parsing files on stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 /// Prints warnings under a `── Warnings ──` section header.
 pub fn print_warnings(warnings: &[String]) {
     if warnings.is_empty() {
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -253,14 +258,7 @@ impl Emitter for GithubEmitter {
 
         // First, report all parsing errors (on stderr, so that stdout only
         // contains Github annotations).
-        for (_path, err) in errors {
-            let root_cause = err.chain().last().unwrap();
-            if root_cause.is::<jarl_core::error::ParseError>() {
-                eprintln!("{}: {}", "Error".red().bold(), root_cause);
-            } else {
-                eprintln!("{}: {}", "Error".red().bold(), err);
-            }
-        }
+        print_errors(errors);
 
         for diagnostic in diagnostics {
             let (row, col) = match diagnostic.location {
@@ -320,14 +318,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..9a011bf 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -6,9 +6,13 @@ use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    has_errors: bool,
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
     if diagnostics.is_empty() {
+        if has_errors {
+            return Ok(ExitStatus::Error);
+        }
         println!("All checks passed!");
         return Ok(ExitStatus::Success);
     }
@@ -46,5 +50,9 @@ pub fn print_statistics(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if has_errors {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Failure)
 }
-- 
2.43.0


From d18885c2488716821ebedd8927f3c7885d0d492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 10/55] fix: machine-readable output when no R file is found

---
 crates/jarl/src/commands/check.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 9ae288c..91e3a02 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -73,11 +73,20 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         .collect::<Vec<_>>();
 
     if paths.is_empty() {
-        println!(
+        let warning = format!(
             "{}: {}",
             "Warning".yellow().bold(),
             "No R files found under the given path(s).".white().bold()
         );
+        match args.output_format {
+            OutputFormat::Full | OutputFormat::Concise => println!("{warning}"),
+            // Do not corrupt structured output.
+            OutputFormat::Json => {
+                eprintln!("{warning}");
+                JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?;
+            }
+            OutputFormat::Github => eprintln!("{warning}"),
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From 3f12e435b482a35a231c4cbed445e780065ed5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 11/55] fix: report paths that cannot be read instead of
 skipping them

---
 crates/jarl/src/commands/check.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 91e3a02..21c79f7 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -67,12 +67,18 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         resolver.add(&ds.directory, ds.settings);
     }
 
-    let paths = discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude)
-        .into_iter()
-        .filter_map(Result::ok)
-        .collect::<Vec<_>>();
+    let mut paths = Vec::new();
+    let mut all_errors: Vec<(String, anyhow::Error)> = Vec::new();
 
-    if paths.is_empty() {
+    for result in discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude) {
+        match result {
+            Ok(path) => paths.push(path),
+            // The path that couldn't be read is mentioned in the error itself.
+            Err(err) => all_errors.push((String::new(), err.into())),
+        }
+    }
+
+    if paths.is_empty() && all_errors.is_empty() {
         let warning = format!(
             "{}: {}",
             "Warning".yellow().bold(),
@@ -124,7 +130,6 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         file_results.extend(jarl_core::check::check(config));
     }
 
-    let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
     for (path, result) in file_results {
-- 
2.43.0


From a7bc4e66242326fbb83ce631594d72acbb2b3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 12/55] fix: exit with an error when suppression comments
 cannot be written

---
 crates/jarl/src/commands/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 21c79f7..1d8dc47 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -319,6 +319,7 @@ fn add_jarl_ignore_comments(
 
     let mut total_suppressions = 0;
     let mut files_modified = 0;
+    let mut has_errors = false;
 
     // Group diagnostics by file path (use BTreeMap for deterministic order)
     let mut by_file: BTreeMap<&str, Vec<&Diagnostic>> = BTreeMap::new();
@@ -338,6 +339,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                has_errors = true;
                 continue;
             }
         };
@@ -427,6 +429,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                has_errors = true;
             }
         }
     }
@@ -446,6 +449,10 @@ fn add_jarl_ignore_comments(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if has_errors {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Success)
 }
 
-- 
2.43.0


From be3cd12a0706dc5c3a0aa2ba7934e98407c66251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 13/55] fix: ranges of fixes following a non-ASCII or
 overlapping fix

---
 crates/jarl-core/src/fix.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..57196e2 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -32,7 +32,8 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
+    // Ranges are expressed in bytes, and so are these lengths.
+    let old_length = old_content.len() as i32;
     let mut new_length = old_length;
 
     for fix in fixes {
@@ -57,8 +58,10 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         let end_usize = end as usize;
 
         new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_length = new_content.len() as i32;
+        // End of the replacement, in the coordinates of the new content (as is
+        // `start` for the next fixes).
+        last_modified_pos = start + fix.content.len() as i32;
     }
 
     (has_skipped_fixes, new_content)
-- 
2.43.0


From 100f022c616c2305bcd12c2fffa5127fa1e35b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 14/55] fix: report an unreadable jarl.toml instead of
 panicking

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From d11d0d71d8a30280e33f4761a7448b058be612bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 15/55] fix: --fix-only implies --fix and never applies unsafe
 fixes without --unsafe-fixes

---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..bf2b708 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -106,9 +106,12 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
+    // --fix-only implies --fix.
+    let fix = check_config.fix || check_config.fix_only;
+
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    let rules_to_apply = match (fix, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +129,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +150,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes: fix,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From 2099e627991a6e9717827b0c3a6cac61de7114e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 16/55] fix: rule registry and rule table disagreed on fixes,
 names and defaults

---
 crates/jarl-core/src/rule_set.rs | 4 ++--
 docs/rules.qmd                   | 8 ++++----
 docs/using-jarl.md               | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/rule_set.rs b/crates/jarl-core/src/rule_set.rs
index 3c8f479..26cdd93 100644
--- a/crates/jarl-core/src/rule_set.rs
+++ b/crates/jarl-core/src/rule_set.rs
@@ -266,7 +266,7 @@ declare_rules! {
         name: "browser",
         categories: [Corr],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     ClassEquals => {
@@ -315,7 +315,7 @@ declare_rules! {
         name: "empty_assignment",
         categories: [Read],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     EqualsNa => {
diff --git a/docs/rules.qmd b/docs/rules.qmd
index 3e680df..d6e3654 100644
--- a/docs/rules.qmd
+++ b/docs/rules.qmd
@@ -52,7 +52,7 @@ dat <- as.data.frame(
     c("assignment", "readability", "✅", "Disabled by default"),
     c("blanket_suppression", "comments", "❌", ""),
     c("browser", "correctness", "❌", ""),
-    c("class_equals", "suspicious", "❗", ""),
+    c("class_equals", "suspicious", "✅", ""),
     c("coalesce", "readability", "✅", "R >= 4.4"),
     c("comparison_negation", "readability", "✅", ""),
     c("download_file", "suspicious", "❌", ""),
@@ -89,11 +89,12 @@ dat <- as.data.frame(
     c("misplaced_file_suppression", "comments", "❌", ""),
     c("misplaced_suppression", "comments", "❌", ""),
     c("numeric_leading_zero", "readability", "✅", ""),
+    c("outdated_suppression", "comments", "❌", ""),
     c("outer_negation", "performance, readability", "✅", ""),
     c("redundant_equals", "readability", "✅", ""),
     c("redundant_ifelse", "correctness, performance, readability", "✅", ""),
     c("repeat", "readability", "✅", ""),
-    c("sample_int", "readability", "✅", ""),
+    c("sample_int", "readability", "✅", "Disabled by default"),
     c("seq", "suspicious", "✅", ""),
     c("seq2", "suspicious", "✅", ""),
     c("sort", "performance, readability", "✅", ""),
@@ -106,8 +107,7 @@ dat <- as.data.frame(
     c("unmatched_range_suppression", "comments", "❌", ""),
     c("unnecessary_nesting", "readability", "✅", "Disabled by default"),
     c("unreachable_code", "readability, suspicious", "❌", ""),
-    c("unused_function", "correctness", "❌", ""),
-    c("unused_suppression", "comments", "❌", ""),
+    c("unused_function", "correctness", "❌", "Disabled by default"),
     c("vector_logic", "performance", "❌", ""),
     c("which_grepl", "performance, readability", "✅", "")
   )
diff --git a/docs/using-jarl.md b/docs/using-jarl.md
index 040dfc2..c7483b3 100644
--- a/docs/using-jarl.md
+++ b/docs/using-jarl.md
@@ -260,7 +260,7 @@ The checks on suppression comments are listed below:
   }
   ```
 
-- `unused_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
+- `outdated_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
   ```r
   # jarl-ignore any_is_na: <reason>
   x <- 1 + 1
-- 
2.43.0


From a4ec1a81461f19b5a9e0fdd7a6aec97ba641291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 17/55] fix: look for uncommitted changes in the working
 directory of linked worktrees and submodules

---
 crates/jarl-core/src/vcs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..e8714af 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -28,11 +28,13 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
-                // Get the repository root path as a key
+                // Get the repository root path as a key. This has to be the
+                // working directory: in a linked worktree or a submodule, the
+                // parent of the Git directory belongs to another repository.
                 let repo_path = repo
-                    .path()
-                    .parent()
-                    .and_then(|p| p.to_str())
+                    .workdir()
+                    .unwrap_or_else(|| repo.path())
+                    .to_str()
                     .unwrap_or("")
                     .to_string();
                 repo_to_paths
-- 
2.43.0


From 6d32ce5b8c6d6437ac75e90d3f480ecf03b1d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 18/55] fix: uncommitted changes in files with non-UTF-8 names
 prevent fixes too

---
 crates/jarl-core/src/vcs.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index e8714af..1a41a7c 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -73,14 +73,14 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
         repo_opts.include_untracked(true);
 
         for status in repo.statuses(Some(&mut repo_opts))?.iter() {
-            if let Some(path) = status.path() {
-                match status.status() {
-                    git2::Status::CURRENT => (),
-                    _ => {
-                        all_dirty_files.push(path.to_string());
-                    }
-                };
-            }
+            match status.status() {
+                git2::Status::CURRENT => (),
+                _ => {
+                    // `status.path()` is `None` when the path isn't valid UTF-8.
+                    let path = String::from_utf8_lossy(status.path_bytes());
+                    all_dirty_files.push(path.to_string());
+                }
+            };
         }
     }
 
-- 
2.43.0


From 370152a91c2d8513dd4303ad82345fc4943611c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 19/55] fix: published configuration schema lacked include and
 the rule-specific tables

---
 artifacts/jarl.schema.json                    | 233 +++++++++++++++++-
 .../jarl-core/src/rule_options/assignment.rs  |   1 +
 2 files changed, 230 insertions(+), 4 deletions(-)

diff --git a/artifacts/jarl.schema.json b/artifacts/jarl.schema.json
index 19daacd..56fe9ff 100644
--- a/artifacts/jarl.schema.json
+++ b/artifacts/jarl.schema.json
@@ -16,16 +16,96 @@
   },
   "additionalProperties": false,
   "$defs": {
-    "LinterTomlOptions": {
+    "AssignmentConfig": {
+      "description": "Accepts either the legacy top-level string (`assignment = \"<-\"`) or the new\ntable form (`[lint.assignment]` with an `operator` field).\n\nTOML doesn't allow a key to be both a string and a table, but by trying the\ntable form first we can surface clear errors (like \"unknown field\") while\nstill falling back to the legacy string form.",
+      "anyOf": [
+        {
+          "description": "Legacy: `assignment = \"<-\"` (deprecated)",
+          "type": "string"
+        },
+        {
+          "description": "New: `[lint.assignment]` table with fields",
+          "$ref": "#/$defs/AssignmentOptions"
+        }
+      ]
+    },
+    "AssignmentOptions": {
+      "description": "TOML options for `[lint.assignment]`.\n\nUse `operator` to specify which assignment operator to enforce.\nValid values are `\"<-\"` (the default) and `\"=\"`.",
       "type": "object",
       "properties": {
-        "assignment": {
-          "title": "Assignment operator to use",
-          "description": "This can be either `\"<-\"` or `\"=\"`. Both are valid in R, so this\noption is useful to ensure consistency in a project.",
+        "operator": {
           "type": [
             "string",
             "null"
           ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "DuplicatedArgumentsOptions": {
+      "description": "TOML options for `[lint.duplicated_arguments]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "ImplicitAssignmentOptions": {
+      "description": "TOML options for `[lint.implicit_assignment]`.\n\nUse `skipped-functions` to fully replace the default list of functions\nwhere implicit assignments are allowed. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "LinterTomlOptions": {
+      "type": "object",
+      "properties": {
+        "assignment": {
+          "title": "Assignment operator to use",
+          "description": "Accepts either the legacy form `assignment = \"<-\"` (deprecated) or the\nnew table form `[lint.assignment]` with an `operator` field.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/AssignmentConfig"
+            },
+            {
+              "type": "null"
+            }
+          ]
         },
         "default-exclude": {
           "title": "Whether or not to use default exclude patterns",
@@ -35,6 +115,18 @@
             "null"
           ]
         },
+        "duplicated_arguments": {
+          "title": "Options for the `duplicated_arguments` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to have duplicated arguments. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/DuplicatedArgumentsOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "exclude": {
           "title": "Patterns to exclude from checking",
           "description": "By default, jarl will refuse to check files matched by patterns listed in\n`default-exclude`. Use this option to supply an additional list of exclude\npatterns.\n\nExclude patterns are modeled after what you can provide in a\n[.gitignore](https://git-scm.com/docs/gitignore), and are resolved relative to the\nparent directory that your `jarl.toml` is contained within. For example, if your\n`jarl.toml` was located at `root/jarl.toml`, then:\n\n- `file.R` excludes a file named `file.R` located anywhere below `root/`. This is\n  equivalent to `**/file.R`.\n\n- `folder/` excludes a directory named `folder` (and all of its children) located\n  anywhere below `root/`. You can also just use `folder`, but this would\n  technically also match a file named `folder`, so the trailing slash is preferred\n  when targeting directories. This is equivalent to `**/folder/`.\n\n- `/file.R` excludes a file named `file.R` located at `root/file.R`.\n\n- `/folder/` excludes a directory named `folder` (and all of its children) located\n  at `root/folder/`.\n\n- `file-*.R` excludes R files named like `file-this.R` and `file-that.R` located\n  anywhere below `root/`.\n\n- `folder/*.R` excludes all R files located at `root/folder/`. Note that R files\n  in directories under `folder/` are not excluded in this case (such as\n  `root/folder/subfolder/file.R`).\n\n- `folder/**/*.R` excludes all R files located anywhere below `root/folder/`.\n\n- `**/folder/*.R` excludes all R files located directly inside a `folder/`\n  directory, where the `folder/` directory itself can appear anywhere.\n\nSee the full [.gitignore](https://git-scm.com/docs/gitignore) documentation for\nall of the patterns you can provide.",
@@ -79,6 +171,29 @@
             "type": "string"
           }
         },
+        "implicit_assignment": {
+          "title": "Options for the `implicit_assignment` rule",
+          "description": "Use `skipped-functions` to fully replace the default list of functions\nthat are allowed to contain implicit assignment. Use\n`extend-skipped-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/ImplicitAssignmentOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "include": {
+          "title": "Patterns to include in checking",
+          "description": "By default, jarl checks all files with a `.R`, `.qmd`, `.Rmd`, or `.rmd`\nextension discovered in the provided paths. Use this option to restrict\nchecking to files that match at least one of the supplied patterns. An\nempty list or a missing option means no restriction, i.e. all discovered\nfiles are checked.\n\nInclude patterns follow the same format as `exclude` patterns (gitignore\nstyle, resolved relative to the `jarl.toml` directory). For example:\n\n- `R/` only checks files inside the `R/` directory.\n\n- `test-*.R` only checks files whose name matches `test-*.R`.\n\n- `**/*.{Rmd,qmd}` only checks Rmd and qmd files.\n\nWhen both `include` and `exclude` are specified, a file is checked only\nif it matches at least one `include` pattern and does not match any\n`exclude` pattern.",
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
         "select": {
           "title": "Rules to select",
           "description": "If this is empty, then all rules that are provided by `jarl` are used,\nwith one limitation related to the minimum R version used in the project.\nBy default, if this minimum R version is unknown, then all rules that\nhave a version restriction are deactivated. This is for example the case\nof `grepv` since the eponymous function was introduced in R 4.5.0.\n\nThere are three ways to inform `jarl` about the minimum version used in\nthe project:\n1. pass the argument `--min-r-version` in the CLI, e.g.,\n   `jarl --min-r-version 4.3`;\n2. if the project is an R package, then `jarl` looks for mentions of a\n   minimum R version in the `Depends` field sometimes present in the\n   `DESCRIPTION` file.\n3. specify `min-r-version` in `jarl.toml`.",
@@ -90,6 +205,18 @@
             "type": "string"
           }
         },
+        "undesirable_function": {
+          "title": "Options for the `undesirable_function` rule",
+          "description": "Use `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UndesirableFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
         "unfixable": {
           "title": "Rule violations to never fix",
           "description": "A list of rules that are never fixed. This only matters if you pass\n`--fix` in the CLI.",
@@ -100,6 +227,104 @@
           "items": {
             "type": "string"
           }
+        },
+        "unreachable_code": {
+          "title": "Options for the `unreachable_code` rule",
+          "description": "Use `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnreachableCodeOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        },
+        "unused_function": {
+          "title": "Options for the `unused_function` rule",
+          "description": "Use `threshold-ignore` to control how many `unused_function`\nviolations are allowed before they are all hidden (likely false\npositives).\n\nUse `skipped-functions` to determine which functions won't be reported\neven if Jarl considers them unused.",
+          "anyOf": [
+            {
+              "$ref": "#/$defs/UnusedFunctionOptions"
+            },
+            {
+              "type": "null"
+            }
+          ]
+        }
+      },
+      "additionalProperties": false
+    },
+    "UndesirableFunctionOptions": {
+      "description": "TOML options for `[lint.undesirable_function]`.\n\nUse `functions` to fully replace the default list of undesirable functions.\nUse `extend-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnreachableCodeOptions": {
+      "description": "TOML options for `[lint.unreachable_code]`.\n\nUse `stopping-functions` to fully replace the default list of functions\nthat are considered to stop execution (never return). Use\n`extend-stopping-functions` to add to the default list.\nSpecifying both is an error.",
+      "type": "object",
+      "properties": {
+        "extend-stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "stopping-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        }
+      },
+      "additionalProperties": false
+    },
+    "UnusedFunctionOptions": {
+      "description": "TOML options for `[lint.unused_function]`.\n\nUse `threshold-ignore` to control when `unused_function`\ndiagnostics are hidden. When the number of violations exceeds this\nthreshold, they are suppressed with an informative note (likely false\npositives).\n\nUse `skipped-functions` to provide a list of regex patterns for\nfunctions that should be skipped by this rule.",
+      "type": "object",
+      "properties": {
+        "skipped-functions": {
+          "type": [
+            "array",
+            "null"
+          ],
+          "items": {
+            "type": "string"
+          }
+        },
+        "threshold-ignore": {
+          "type": [
+            "integer",
+            "null"
+          ],
+          "format": "uint",
+          "minimum": 0
         }
       },
       "additionalProperties": false
diff --git a/crates/jarl-core/src/rule_options/assignment.rs b/crates/jarl-core/src/rule_options/assignment.rs
index 40a2871..b072273 100644
--- a/crates/jarl-core/src/rule_options/assignment.rs
+++ b/crates/jarl-core/src/rule_options/assignment.rs
@@ -20,6 +20,7 @@ pub struct AssignmentOptions {
 /// still falling back to the legacy string form.
 #[derive(Clone, Debug, PartialEq, Eq)]
 #[cfg_attr(feature = "schemars", derive(schemars::JsonSchema))]
+#[cfg_attr(feature = "schemars", schemars(untagged))]
 pub enum AssignmentConfig {
     /// Legacy: `assignment = "<-"` (deprecated)
     Legacy(String),
-- 
2.43.0


From cf16ea2c3c1eec7bc6d7bed3120320a0c46cb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 20/55] fix: files without any jarl.toml in their ancestors use
 the user-level one

---
 crates/jarl-core/src/discovery.rs | 2 +-
 crates/jarl/src/commands/check.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..8d10c37 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -39,7 +39,7 @@ pub struct DiscoveredSettings {
 }
 
 /// Get the user config directory for jarl
-fn get_user_config_dir() -> Option<PathBuf> {
+pub fn get_user_config_dir() -> Option<PathBuf> {
     let strategy = etcetera::base_strategy::choose_base_strategy().ok()?;
     Some(strategy.config_dir().join("jarl"))
 }
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 1d8dc47..280d9e6 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,5 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings};
+use jarl_core::discovery::{discover_r_file_paths, discover_settings, get_user_config_dir};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -111,12 +111,15 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     };
 
     // Group paths by their closest resolved config directory, so each file is
-    // checked with the settings from the nearest jarl.toml.
+    // checked with the settings from the nearest jarl.toml. Files that don't have
+    // any jarl.toml in their ancestors are checked with the user-level one, if any.
+    let user_config_dir = get_user_config_dir();
     let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
-            .map(|item| item.path().to_path_buf());
+            .map(|item| item.path().to_path_buf())
+            .or_else(|| user_config_dir.clone());
         groups.entry(key).or_default().push(path);
     }
 
-- 
2.43.0


From 6e6f529396e936f3e065f280af137502f86fc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 21/55] fix: suppression comments in R Markdown are inserted at
 the document's line

---
 crates/jarl-core/src/suppression_edit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..8c4b000 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -436,8 +436,9 @@ pub fn create_suppression_edit_in_rmd(
             let local_end = diagnostic_end.saturating_sub(chunk.start_byte);
             let mut insert_point =
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
-            // Remap chunk-local offset to file-level offset.
+            // Remap chunk-local offset and line to file-level ones.
             insert_point.offset += chunk.start_byte;
+            insert_point.line += count_lines_to(file_content, chunk.start_byte);
             let comment_text = format_suppression_comments(
                 &[rule_name],
                 explanation,
-- 
2.43.0


From 030632bed77673f3900409970eae076d88d34056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 22/55] fix: --add-jarl-ignore with a blank reason wrote
 suppressions the grammar rejects

---
 crates/jarl/src/commands/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 280d9e6..1a6fc53 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -311,6 +311,13 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    // A suppression without explanation is not a valid one
+    if reason.trim().is_empty() {
+        return Err(anyhow::anyhow!(
+            "--add-jarl-ignore=<reason> cannot be empty."
+        ));
+    }
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
-- 
2.43.0


From a46b15c478e7b9cab8409102977a8e27828474da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 23/55] fix: report a jarl-ignore-start that is replaced by a
 second start of the same rule

---
 crates/jarl-core/src/suppression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..ba56647 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -441,10 +441,14 @@ impl SuppressionManager {
                 collector.has_any_valid_directive = true;
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
-                        // Store with nesting level for proper matching
-                        collector
+                        // Store with nesting level for proper matching. A start that is
+                        // still open for this rule at this level can't be matched anymore.
+                        if let Some((previous_range, _)) = collector
                             .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                            .insert((rule, nesting_level), (comment_range, comment_range))
+                        {
+                            collector.unmatched_start_suppressions.push(previous_range);
+                        }
                     }
                     LintDirective::IgnoreEnd(rule) => {
                         // Only match with start at the same nesting level
-- 
2.43.0


From 5ec061bbdb90c5025702b11259a19671e2393759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 24/55] fix: lint inside call targets and indexed or extracted
 objects

Expressions in the function position of a call ('(function() ...)()',
'f(x)(y)'), in the object of '[' and '[[' ('f(x)[1]'), and on the left of
'$' and '@' ('f(x)$y') were never visited, so no rule saw them.
---
 crates/jarl-core/src/analyze/expression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..80f4e7d 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -41,9 +41,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RCall(children) => {
             analyze::call::call(children, checker)?;
 
-            if let Some(ns_expr) = children.function()?.as_r_namespace_expression() {
-                analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
-            }
+            check_expression(&children.function()?, checker)?;
 
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg.unwrap().as_fields().value {
@@ -51,6 +49,9 @@ pub(crate) fn check_expression(
                 }
             }
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_expression(&children.left()?, checker)?;
+        }
         AnyRExpression::RForStatement(children) => {
             analyze::for_loop::for_loop(children, checker)?;
             let RForStatementFields { variable, sequence, body, .. } = children.as_fields();
@@ -101,6 +102,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
 
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -108,6 +110,7 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
-- 
2.43.0


From c2079569f8c10a2b8c1c29cb620d82b1f61effa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 25/55] fix: a comment next to the expression no longer lets
 fixes delete comments inside it

node_contains_comments() returned false as soon as the node had a leading
or trailing comment, even when other comments were inside the node.
---
 crates/jarl-core/src/utils.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 587360d..963ea76 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -386,7 +387,10 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    let range = node.text_trimmed_range();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        let token_range = token.text_trimmed_range();
+        (token.has_leading_comments() && token_range.start() > range.start())
+            || (token.has_trailing_comments() && token_range.end() < range.end())
+    })
 }
-- 
2.43.0


From 213f93b8b72c5ba8a92a617437f78db08514e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 26/55] fix: the assignment fix no longer deletes comments
 around the operator

---
 crates/jarl-core/src/lints/base/assignment/assignment.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..de7c899 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,6 +100,13 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // Comments inside the operands are kept by the fix, those around the
+    // operator would be lost.
+    let has_comments_around_operator = operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || lhs.has_trailing_comments()
+        || rhs.has_leading_comments();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +115,7 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip: has_comments_around_operator,
         },
     );
 
-- 
2.43.0


From e994d8bc6540729160e3b2eb4e039eb3d96c1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 27/55] fix: the all_equal fix no longer deletes a comment
 between `!` and the call

---
 crates/jarl-core/src/lints/base/all_equal/all_equal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..f308738 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -87,16 +87,17 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let msg = "If `all.equal()` is false, it will return a string and not `FALSE`.".to_string();
-    let mut range = ast.syntax().text_trimmed_range();
+    let mut syntax = ast.syntax().clone();
 
     let fix_content = if ast.parent_is_bang_unary() {
-        if let Some(prev) = ast.syntax().prev_sibling_or_token() {
-            range = TextRange::new(prev.text_trimmed_range().start(), range.end())
+        if let Some(parent) = ast.syntax().parent() {
+            syntax = parent;
         }
         format!("!isTRUE({})", ast.to_trimmed_text())
     } else {
         format!("isTRUE({})", ast.to_trimmed_text())
     };
+    let range = syntax.text_trimmed_range();
 
     let diagnostic = Diagnostic::new(
         ViolationData::new(
@@ -109,7 +110,7 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: fix_content,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(&syntax),
         },
     );
 
-- 
2.43.0


From 8f22a122a69ae26f9b4104a33379c485e2d51d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 28/55] fix: the editor honours the include and exclude
 patterns that the command line does

---
 crates/jarl-core/src/discovery.rs | 127 ++++++++++++++++++++++--------
 crates/jarl-lsp/src/utils.rs      |  48 ++---------
 2 files changed, 100 insertions(+), 75 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 8d10c37..8c48179 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -305,46 +305,17 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
             // Exclude filter: remove files matching any exclude pattern
             if let Some(exclude_patterns) = &settings.linter.exclude
-                && !exclude_patterns.is_empty()
+                && matches_exclude_patterns(path, false, root, exclude_patterns)
             {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in exclude_patterns {
-                    if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                        tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if matches!(overrides.matched(relative, false), ignore::Match::Ignore(_)) {
-                        return false;
-                    }
-                }
+                return false;
             }
 
             // Include filter: if set, only keep files matching at least one pattern
             if let Some(include_patterns) = &settings.linter.include
                 && !include_patterns.is_empty()
+                && !matches_include_patterns(path, root, include_patterns)
             {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in include_patterns {
-                    let file_pattern = if pattern.ends_with('/') {
-                        format!("{}**", pattern)
-                    } else {
-                        pattern.clone()
-                    };
-                    if let Err(e) = override_builder.add(&file_pattern) {
-                        tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if !matches!(
-                        overrides.matched(relative, false),
-                        ignore::Match::Whitelist(_)
-                    ) {
-                        return false;
-                    }
-                }
+                return false;
             }
 
             true
@@ -354,6 +325,96 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Whether a file is left out by the settings found in `root`, for callers that
+/// don't find files by walking through directories (see
+/// [discover_r_file_paths()]).
+///
+/// This is the case if this file or one of the directories it lies in is
+/// excluded, or if there are `include` patterns and it matches none of them.
+pub fn is_excluded_by_settings(path: &Path, root: &Path, settings: &Settings) -> bool {
+    let path = fs::normalize_path(path);
+    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
+
+    let mut patterns: Vec<&str> = Vec::new();
+    if let Some(exclude_patterns) = &settings.linter.exclude {
+        patterns.extend(exclude_patterns.iter().map(|pattern| pattern.as_str()));
+    }
+    if settings.linter.default_exclude.unwrap_or(true) {
+        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
+    }
+
+    if matches_exclude_patterns(&path, false, root, &patterns) {
+        return true;
+    }
+    for directory in relative.ancestors().skip(1) {
+        if !directory.as_os_str().is_empty()
+            && matches_exclude_patterns(directory, true, root, &patterns)
+        {
+            return true;
+        }
+    }
+
+    match &settings.linter.include {
+        Some(include_patterns) if !include_patterns.is_empty() => {
+            !matches_include_patterns(&path, root, include_patterns)
+        }
+        _ => false,
+    }
+}
+
+/// Whether the file or directory matches one of the `exclude` patterns.
+fn matches_exclude_patterns<S: AsRef<str>>(
+    path: &Path,
+    is_dir: bool,
+    root: &Path,
+    patterns: &[S],
+) -> bool {
+    if patterns.is_empty() {
+        return false;
+    }
+
+    let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
+    for pattern in patterns {
+        let pattern = pattern.as_ref();
+        if let Err(e) = override_builder.add(&format!("!{pattern}")) {
+            tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
+        }
+    }
+    let Ok(overrides) = override_builder.build() else {
+        return false;
+    };
+
+    let relative = path.strip_prefix(root).unwrap_or(path);
+    matches!(
+        overrides.matched(relative, is_dir),
+        ignore::Match::Ignore(_)
+    )
+}
+
+/// Whether the file matches one of the `include` patterns.
+fn matches_include_patterns(path: &Path, root: &Path, patterns: &[String]) -> bool {
+    let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
+    for pattern in patterns {
+        let file_pattern = if pattern.ends_with('/') {
+            format!("{}**", pattern)
+        } else {
+            pattern.clone()
+        };
+        if let Err(e) = override_builder.add(&file_pattern) {
+            tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
+        }
+    }
+    let Ok(overrides) = override_builder.build() else {
+        return true;
+    };
+
+    let relative = path.strip_prefix(root).unwrap_or(path);
+    matches!(
+        overrides.matched(relative, false),
+        ignore::Match::Whitelist(_)
+    )
+}
+
 /// Shared state across the threads of the walker
 struct FilesState {
     files: std::sync::Mutex<DiscoveredFiles>,
diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..05f325d 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
+use jarl_core::discovery::{DEFAULT_EXCLUDE_PATTERNS, is_excluded_by_settings};
 use jarl_core::settings::Settings;
 
 /// Check if a path string matches an exclusion pattern
@@ -117,48 +117,12 @@ pub fn should_exclude_file_based_on_settings(
     resolver: &PathResolver<Settings>,
 ) -> bool {
     // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
+    match resolver.items().first() {
+        // The same patterns mean the same files as on the command line.
+        Some(item) => is_excluded_by_settings(file_path, item.path(), item.value()),
+        // No settings found, only the default patterns apply
+        None => should_exclude_file(file_path, DEFAULT_EXCLUDE_PATTERNS),
     }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
 }
 
 #[cfg(test)]
-- 
2.43.0


From aef37a403ece249ebd9b67b2502d369fd70a1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 29/55] fix: exports that span several lines or share a line in
 NAMESPACE were not recognised

---
 .../base/unused_function/unused_function.rs   | 184 ++++++++++--------
 1 file changed, 101 insertions(+), 83 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..518b013 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -55,30 +55,57 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
+fn extract_directive<'a>(content: &'a str, directive: &str) -> Vec<&'a str> {
+    // Find all the uses of a NAMESPACE directive (e.g. `S3method`, `export`) and
+    // return their parenthesized arguments, which may span several lines.
+    // Handles cases where the directive is preceded by an `if (...)` guard, e.g.:
     //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
+    let mut directives = Vec::new();
 
-    // Find `directive(` in the line
+    // Find `directive(` in the content
     let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
+    for (start, _) in content.match_indices(&dir_with_paren) {
+        // Make sure the directive is not part of a longer word
+        // (e.g. "exportPattern" should not match "export")
+        if content[..start].ends_with(|c: char| c.is_alphanumeric() || c == '_') {
+            continue;
+        }
+
+        // Find the matching closing paren
+        let rest = &content[start + dir_with_paren.len()..];
+        let mut depth = 0;
+        let mut quote = None;
+        for (end, c) in rest.char_indices() {
+            if let Some(q) = quote {
+                if c == q {
+                    quote = None;
+                }
+            } else if c == '"' || c == '\'' {
+                quote = Some(c);
+            } else if c == '(' {
+                depth += 1;
+            } else if c == ')' {
+                if depth == 0 {
+                    directives.push(&rest[..end]);
+                    break;
+                }
+                depth -= 1;
+            }
         }
     }
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+    directives
+}
+
+/// Remove the comment at the end of a line of a NAMESPACE file.
+fn strip_comment(line: &str) -> &str {
+    for (start, _) in line.match_indices('#') {
+        // `#` may also be part of a quoted name or regex.
+        if line[..start].matches(['"', '\'']).count() % 2 == 0 {
+            return &line[..start];
+        }
+    }
+    line
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -89,82 +116,73 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
-
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
-            continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
+    let content: String = content
+        .lines()
+        .map(strip_comment)
+        .collect::<Vec<_>>()
+        .join("\n");
+
+    for directive in [
+        "export",
+        "exportPattern",
+        "S3method",
+        "exportMethods",
+        "exportClasses",
+    ] {
+        for inner in extract_directive(&content, directive) {
+            match directive {
+                "export" => {
+                    for name in inner.split(',') {
+                        let name = name.trim().trim_matches('"').trim_matches('\'');
+                        if !name.is_empty() {
+                            exports.insert(name.to_string());
                         }
                     }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
+                }
+                "exportPattern" => {
+                    let pattern = inner.trim().trim_matches('"').trim_matches('\'');
+                    if let Ok(re) = Regex::new(pattern) {
+                        for &name in all_names {
+                            if re.is_match(name) {
+                                exports.insert(name.to_string());
                             }
                         }
                     }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
+                }
+                "S3method" => {
+                    // S3method(generic, class) or
+                    // S3method(pkg::generic, class) or
+                    // S3method(generic, class, method_fn)
+                    let parts: Vec<&str> = inner.splitn(4, ',').collect();
+                    if parts.len() >= 2 {
+                        let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
+                        let class = parts[1].trim().trim_matches('"').trim_matches('\'');
+
+                        // Strip optional pkg:: or pkg::: prefix
+                        let generic = raw_generic
+                            .rsplit_once("::")
+                            .map(|(_, g)| g)
+                            .unwrap_or(raw_generic);
+
+                        if parts.len() >= 3 {
+                            let method_fn = parts[2].trim().trim_matches('"').trim_matches('\'');
+                            if !method_fn.is_empty() {
+                                exports.insert(method_fn.to_string());
                             }
+                        } else {
+                            exports.insert(format!("{generic}.{class}"));
                         }
                     }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
+                }
+                "exportMethods" | "exportClasses" => {
+                    for name in inner.split(',') {
+                        let name = name.trim().trim_matches('"').trim_matches('\'');
+                        if !name.is_empty() {
+                            exports.insert(name.to_string());
                         }
                     }
-                    _ => {}
                 }
-                break;
+                _ => {}
             }
         }
     }
-- 
2.43.0


From 5996e6c613f4a4bbe730cd4288c5883a5449ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 30/55] fix: functions with non-ASCII names were reported as
 unused although they are called

---
 .../base/unused_function/unused_function.rs   | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 518b013..eec6e13 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -209,26 +209,11 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
+        for word in line.split(|c: char| !c.is_alphanumeric() && c != '.' && c != '_') {
             // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
+            let name = word.trim_start_matches(char::is_numeric);
+            if !name.is_empty() {
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
-- 
2.43.0


From 6e5d8fec8142f99365555b37d2a2e2ff931ebfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 31/55] fix: the files of a package were attributed to the
 wrong scope or package depending on the path

---
 crates/jarl-core/src/package.rs | 101 ++++++++++++++++----------------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..e5c1b96 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -107,7 +107,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
+    let mut extra_files: Vec<(PathBuf, FileScope, &PathBuf)> = Vec::new();
     let mut excluded_r_files: Vec<PathBuf> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
@@ -139,16 +139,26 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
 
         if check_unused {
             // Collect test/tinytest R files
-            for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
+            for (dir_name, scope) in [
+                ("inst/tinytest", FileScope::Inst),
+                ("inst/tests", FileScope::Inst),
+                ("tests", FileScope::Tests),
+            ] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    for file in collect_files(&dir, has_r_extension) {
+                        if is_in_package(&file, root, &package_roots) {
+                            extra_files.push((file, scope, root));
+                        }
+                    }
                 }
             }
             // Collect C/C++ files in src/
             let src_dir = root.join("src");
             if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
+                for file in collect_files(&src_dir, has_cpp_extension) {
+                    extra_files.push((file, FileScope::Src, root));
+                }
             }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
@@ -157,22 +167,28 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         }
     }
 
-    // Build the list of all files to scan in parallel, each tagged with its scope.
-    let all_files: Vec<(&Path, FileScope)> = r_dir_files
+    // Build the list of all files to scan in parallel, each tagged with its scope
+    // and, for those that are not in R/, with the root of their package.
+    let all_files: Vec<(&Path, FileScope, Option<&PathBuf>)> = r_dir_files
         .iter()
-        .map(|p| (p.as_path(), FileScope::R))
-        .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
-        }))
+        .map(|p| (p.as_path(), FileScope::R, None))
+        .chain(
+            excluded_r_files
+                .iter()
+                .map(|p| (p.as_path(), FileScope::R, None)),
+        )
+        .chain(
+            extra_files
+                .iter()
+                .map(|(p, scope, root)| (p.as_path(), *scope, Some(*root))),
+        )
         .collect();
 
     // Single parallel scan: read each file once. All R files get
     // scan_top_level_assignments; Src files only get scan_symbols.
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
-        .filter_map(|(path, scope)| {
+        .filter_map(|(path, scope, root)| {
             let content = std::fs::read_to_string(path).ok()?;
             let symbol_counts = if check_unused {
                 scan_symbols(&content)
@@ -185,35 +201,18 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 _ => scan_top_level_assignments(&content),
             };
 
-            if *scope == FileScope::R {
-                let r_dir = path.parent()?;
-                let package_root = r_dir.parent()?.to_path_buf();
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: FileScope::R,
-                })
-            } else {
-                // Extra file: figure out the package root. The file is
-                // somewhere under root/tests/, root/inst/, or root/src/.
-                let package_root = find_package_root(path)?;
-                let r_dir = package_root.join("R");
-                let rel_path = PathBuf::from(crate::fs::relativize_path(path));
-                let root_key = crate::fs::relativize_path(&r_dir);
-                Some(SharedFileData {
-                    root_key,
-                    rel_path,
-                    package_root,
-                    assignments,
-                    symbol_counts,
-                    scope: *scope,
-                })
-            }
+            let r_dir = match root {
+                Some(root) => root.join("R"),
+                None => path.parent()?.to_path_buf(),
+            };
+            Some(SharedFileData {
+                root_key: crate::fs::relativize_path(&r_dir),
+                rel_path: PathBuf::from(crate::fs::relativize_path(path)),
+                package_root: r_dir.parent()?.to_path_buf(),
+                assignments,
+                symbol_counts,
+                scope: *scope,
+            })
         })
         .collect();
 
@@ -236,7 +235,8 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
-/// Determine the `FileScope` for a non-R/ file based on its path.
+/// Determine the `FileScope` for a non-R/ file based on its path, for tests.
+#[cfg(test)]
 fn file_scope_from_path(path: &Path) -> FileScope {
     let components: Vec<_> = path
         .components()
@@ -260,15 +260,12 @@ fn file_scope_from_path(path: &Path) -> FileScope {
     FileScope::Tests
 }
 
-/// Walk up from a file path to find the package root (directory containing DESCRIPTION).
-fn find_package_root(path: &Path) -> Option<PathBuf> {
-    let mut dir = path.parent()?;
-    loop {
-        if dir.join("DESCRIPTION").exists() {
-            return Some(dir.to_path_buf());
-        }
-        dir = dir.parent()?;
-    }
+/// Whether a file located somewhere under `root` belongs to this package, and not
+/// to another one that is stored in its subdirectories (e.g. in `tests/`).
+fn is_in_package(file: &Path, root: &Path, package_roots: &HashSet<PathBuf>) -> bool {
+    !package_roots
+        .iter()
+        .any(|other| other != root && other.starts_with(root) && file.starts_with(other))
 }
 
 /// Scan paths into `SharedFileData`, reading each file once. Used by tests
-- 
2.43.0


From 780bca332e9670a81a2564eb2198e6f96b30eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 32/55] fix: functions used in src/*.cc only were reported as
 unused

---
 .../jarl-core/src/lints/base/unused_function/unused_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index eec6e13..6c4565c 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -248,7 +248,7 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "h" | "hpp")
     )
 }
 
-- 
2.43.0


From ca663cc4cd84d5e208d67b5dc3262b010ab8505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 33/55] fix: files given by overlapping paths were linted, and
 fixed, several times at once

---
 crates/jarl-core/src/discovery.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 8c48179..25b55ed 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -284,6 +284,14 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     let mut files = state.finish();
 
+    // The walker visits the same file several times when the paths overlap (e.g.
+    // `jarl check R R/foo.R`).
+    let mut seen: FxHashSet<PathBuf> = FxHashSet::default();
+    files.retain(|result| match result {
+        Ok(path) => seen.insert(path.clone()),
+        Err(_) => true,
+    });
+
     // Post-filter: apply per-config exclude and include patterns.
     //
     // The WalkBuilder above only applies the first config's exclude patterns.
-- 
2.43.0


From f4093573dd54a65dbd167c98a54f8de454a88b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 34/55] fix: a code action for an outdated diagnostic range no
 longer panics

---
 crates/jarl-core/src/suppression_edit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index 8c4b000..9759d88 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -151,6 +151,15 @@ pub fn compute_suppression_insert_point(
     diagnostic_start: usize,
     diagnostic_end: usize,
 ) -> Option<SuppressionInsertPoint> {
+    // The range may come from an editor whose document has changed since the
+    // diagnostic was computed.
+    if diagnostic_start > diagnostic_end
+        || !source.is_char_boundary(diagnostic_start)
+        || !source.is_char_boundary(diagnostic_end)
+    {
+        return None;
+    }
+
     let parsed = air_r_parser::parse(source, RParserOptions::default());
     if parsed.has_error() {
         // Fall back to simple line-based insertion
-- 
2.43.0


From 504cd9e36a48677d670da1d153738af1d88e0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 35/55] fix: offsets inside a character are rejected instead of
 panicking in the language server

---
 crates/jarl-lsp/src/document.rs | 7 +++++++
 crates/jarl-lsp/src/lint.rs     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 04297f6..872d54b 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -259,6 +259,13 @@ impl TextDocument {
             return Err(anyhow!("Offset {} is out of bounds", offset));
         }
 
+        if !self.content.is_char_boundary(offset) {
+            return Err(anyhow!(
+                "Offset {} is in the middle of a UTF-8 sequence",
+                offset
+            ));
+        }
+
         // Binary search to find the line
         let line = match self.line_starts.binary_search(&offset) {
             Ok(line) => line,
diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..7bbdc1a 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -276,6 +276,13 @@ pub fn byte_offset_to_lsp_position(
         ));
     }
 
+    if !content.is_char_boundary(byte_offset) {
+        return Err(anyhow!(
+            "Byte offset {} is in the middle of a UTF-8 sequence",
+            byte_offset
+        ));
+    }
+
     // Find the line number and column by iterating through the content
     let mut line = 0;
     let mut line_start_offset = 0;
-- 
2.43.0


From 50f6f86f7c8de2995c85c0739fdb5f02197e3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 36/55] fix: do not panic or fail on calls whose argument has
 no value (sample_int, lengths)

---
 crates/jarl-core/src/lints/base/lengths/lengths.rs | 14 +++++---------
 .../src/lints/base/sample_int/sample_int.rs        |  2 +-
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..611bb42 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,7 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct Lengths;
@@ -59,20 +58,17 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_x) = arg_x
+        && let Some(arg_fun) = arg_fun
+        && let Some(arg_fun_value) = arg_fun.value()
+        && arg_fun_value.into_syntax().text_trimmed() == "length"
     {
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..38a23df 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -62,7 +62,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From 7fa0eafcef6b69f039ee4ea7d12e758361db2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 37/55] fix: duplicated_arguments does not fail on calls of any
 kind of expression

---
 .../base/duplicated_arguments/duplicated_arguments.rs     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..a8ee4a7 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -3,7 +3,6 @@ use std::collections::{HashMap, HashSet};
 use crate::checker::Checker;
 use crate::diagnostic::*;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +49,8 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        // e.g. `break()` or `NULL(x)`
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
-- 
2.43.0


From 7d5fed018f89644b75593fffe913067e049cdc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:55 +0000
Subject: [PATCH 38/55] fix: name duplicated arguments in a fixed order

---
 .../base/duplicated_arguments/duplicated_arguments.rs    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index a8ee4a7..f189663 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use crate::checker::Checker;
 use crate::diagnostic::*;
@@ -120,12 +120,13 @@ fn get_duplicates(values: &[String]) -> Vec<String> {
     for item in values {
         *counts.entry(item).or_insert(0) += 1;
     }
-    let duplicates: HashSet<String> = counts
+    let mut duplicates: Vec<String> = counts
         .into_iter()
         .filter(|(_, count)| *count > 1)
         .map(|(item, _)| item.clone())
         .collect();
 
-    let duplicates_vec: Vec<String> = duplicates.into_iter().collect();
-    duplicates_vec
+    // The iteration order of a `HashMap` differs between runs.
+    duplicates.sort();
+    duplicates
 }
-- 
2.43.0


From 918cf6e3034aeb1e8727b010eb3991a8df379fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 39/55] fix: statistics, unknown fields and dirty files are
 reported in a fixed order

---
 crates/jarl-core/src/toml.rs  | 2 +-
 crates/jarl-core/src/vcs.rs   | 4 ++--
 crates/jarl/src/statistics.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 038e95d..4685dc6 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -290,7 +290,7 @@ impl TomlOptions {
 
         // Reject unknown fields in `[lint]` with a clean error message that
         // only lists the primary options (not every rule sub-table name).
-        if let Some(field) = linter.unknown_fields.keys().next() {
+        if let Some(field) = linter.unknown_fields.keys().min() {
             return Err(anyhow::anyhow!(
                 "Unknown field `{field}` in `[lint]`. Expected one of: \
                  `select`, `extend-select`, `ignore`, `fixable`, `unfixable`, \
diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 1a41a7c..42053dd 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -1,6 +1,6 @@
 use crate::config::Config;
 use anyhow::{Result, bail};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::Path;
 
 /// Check version control status once for multiple paths.
@@ -22,7 +22,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Group paths by their repository root
-    let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
+    let mut repo_to_paths: BTreeMap<String, Vec<String>> = BTreeMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
 
     for path in paths {
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 9a011bf..2d4bdae 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -30,8 +30,8 @@ pub fn print_statistics(
     }
 
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    // Rules with the same number of occurrences are in alphabetical order.
+    sorted.sort_by(|a, b| b.1.0.cmp(&a.1.0).then_with(|| a.0.cmp(b.0)));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From a745bf789da7ed9fa5c9c1deb8816b2809080866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 40/55] fix: files are checked in a fixed order

---
 crates/jarl/src/commands/check.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 1a6fc53..b82810b 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -16,7 +16,6 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -78,6 +77,11 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         }
     }
 
+    // Several threads look for files, so the order in which they are found
+    // differs between runs.
+    paths.sort();
+    all_errors.sort_by_cached_key(|(_, err)| err.to_string());
+
     if paths.is_empty() && all_errors.is_empty() {
         let warning = format!(
             "{}: {}",
@@ -114,7 +118,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // checked with the settings from the nearest jarl.toml. Files that don't have
     // any jarl.toml in their ancestors are checked with the user-level one, if any.
     let user_config_dir = get_user_config_dir();
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
-- 
2.43.0


From 9d31968df6a43a2fc4212e2e1148af0484b22a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 41/55] fix: numbers that Rust can't parse in a condition do
 not make the file fail

---
 .../base/if_always_true/if_always_true.rs     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
index 8c9ab0b..4dcd8a2 100644
--- a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
+++ b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
@@ -84,21 +84,22 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
                 let token = int.value_token()?;
                 let text = token.text_trimmed();
                 let normalized = text.strip_suffix('L').unwrap_or(text);
-                let value: i64 = normalized.parse()?;
-                return Ok(Some(value != 0));
+                // This can't parse all integers, e.g. `0x10L` or `1e5L`.
+                return Ok(normalized.parse::<i64>().ok().map(|value| value != 0));
             }
             if let Some(double) = value.as_r_double_value() {
                 let token = double.value_token()?;
                 let text = token.text_trimmed();
-                let value: f64 = if text.starts_with('.') {
-                    format!("0{text}").parse()?
+                let value = if text.starts_with('.') {
+                    format!("0{text}").parse::<f64>()
                 } else {
-                    text.parse()?
+                    text.parse::<f64>()
+                };
+                // This can't parse all numbers, e.g. `0xFF`.
+                return match value {
+                    Ok(value) if !value.is_nan() => Ok(Some(value != 0.0)),
+                    _ => Ok(None),
                 };
-                if value.is_nan() {
-                    return Ok(None);
-                }
-                return Ok(Some(value != 0.0));
             }
             Ok(None)
         }
-- 
2.43.0


From 030e8dea6a564197a186e132da3749c7b9d19974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:45 +0000
Subject: [PATCH 42/55] fix: arguments are found whatever the layout of their
 name, and dropped where they are found

---
 crates/jarl-core/src/utils.rs | 70 ++++++++++-------------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 963ea76..40df808 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -106,21 +106,19 @@ pub fn get_named_args(args: &RArgumentList) -> Vec<RArgument> {
         .collect()
 }
 
+/// Checks whether an argument is named `name`. The name may be quoted, and there
+/// may be comments around it.
+fn is_argument_named(arg: &RArgument, name: &str) -> bool {
+    arg.name_clause()
+        .and_then(|name_clause| name_clause.name().ok())
+        .is_some_and(|arg_name| arg_name.to_trimmed_string().trim_matches(['"', '\'', '`']) == name)
+}
+
 /// Takes a list of arguments and tries to extract the one named `name`.
 pub fn get_arg_by_name(args: &RArgumentList, name: &str) -> Option<RArgument> {
     args.into_iter()
-        .find(|x| {
-            let name_clause = x.clone().unwrap().name_clause();
-            if let Some(name_clause) = name_clause {
-                match name_clause.name() {
-                    Ok(name_clause) => name_clause.to_string().trim() == name,
-                    _ => false,
-                }
-            } else {
-                false
-            }
-        })
-        .map(|x| x.unwrap())
+        .filter_map(|arg| arg.ok())
+        .find(|arg| is_argument_named(arg, name))
 }
 
 /// Takes a list of arguments and tries to extract the one in position `pos`.
@@ -158,49 +156,21 @@ pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) ->
 }
 
 /// Takes a list of arguments and removes the one that is named `name` or the
-/// one in position `pos` if no argument was found in the first step.
+/// unnamed one in position `pos` if no argument was found in the first step,
+/// i.e. the one that `get_arg_by_name_then_position()` returns.
 pub fn drop_arg_by_name_or_position(
     args: &RArgumentList,
     name: &str,
     pos: usize,
 ) -> Option<Vec<RArgument>> {
-    let mut dropped_by_name = false;
-
-    let by_name: Vec<RArgument> = args
-        .iter()
-        .filter_map(|arg| {
-            let arg = arg.clone().unwrap();
-            if let Some(name_clause) = arg.name_clause()
-                && let Ok(n) = name_clause.name()
-                && n.to_string().trim() == name
-            {
-                dropped_by_name = true;
-                return None;
-            }
-            Some(arg)
-        })
-        .collect();
-
-    if dropped_by_name {
-        return Some(by_name);
-    }
-
-    let by_pos: Vec<RArgument> = args
-        .iter()
-        .enumerate()
-        .filter_map(|(i, arg)| {
-            if i == pos - 1 {
-                return None;
-            }
-            Some(arg.clone().unwrap())
-        })
-        .collect();
-
-    if by_pos.len() != args.len() {
-        Some(by_pos)
-    } else {
-        None
-    }
+    let to_drop = get_arg_by_name_then_position(args, name, pos)?;
+
+    Some(
+        args.iter()
+            .filter_map(|arg| arg.ok())
+            .filter(|arg| arg.syntax() != to_drop.syntax())
+            .collect(),
+    )
 }
 
 /// Return the function name of an expression. This takes AnyRExpression because
-- 
2.43.0


From 8f5b48fcfc45ede5ad7d7cdb5509df8179ecfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 43/55] fix: fixed_regex and outer_negation rewrote calls that
 do not match their pattern

---
 .../src/lints/base/fixed_regex/fixed_regex.rs | 10 ++++++----
 .../base/outer_negation/outer_negation.rs     | 19 ++++++-------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..098ad1b 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -60,12 +60,14 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         _ => return Ok(None),
     };
 
-    // Check if fixed is already set to TRUE
+    // Check if fixed is already set to something else than FALSE
     if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+        && fixed_arg
+            .value()
+            .is_none_or(|value| value.syntax().text_trimmed() != "FALSE")
     {
-        // fixed = TRUE is already set, no need to lint
+        // If fixed = TRUE is already set, there is no need to lint. Otherwise we
+        // don't know its value, and it can't be set twice.
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..c8427da 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -54,23 +54,16 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arg_value = unwrap_or_return_none!(first_arg.value());
-    // Check if the argument is a unary expression (negation)
-    if arg_value.syntax().kind() != RSyntaxKind::R_UNARY_EXPRESSION {
+    // Check if the argument is a negation, and not another unary expression,
+    // e.g. `-x`.
+    let unary = unwrap_or_return_none!(arg_value.as_r_unary_expression());
+    if unary.operator()?.kind() != RSyntaxKind::BANG {
         return Ok(None);
     }
 
     // Get the expression after the negation operator
-    // Skip the BANG token to get the actual expression
-    let negated_expr = arg_value
-        .syntax()
-        .children()
-        .find(|child| child.kind() != RSyntaxKind::BANG);
-
-    let expr = unwrap_or_return_none!(negated_expr);
-
-    // It looks like the first (and only) child of R_UNARY_EXPRESSION is what
-    // comes after "!". So we don't need to check that this is indeed using the
-    // BANG operator because it's the only R_UNARY_EXPRESSION available.
+    let negated_expr = unary.argument()?;
+    let expr = negated_expr.syntax();
 
     // Don't report consecutive unary expressions (e.g., `any(!!x)`)
     if expr.kind() == RSyntaxKind::R_UNARY_EXPRESSION {
-- 
2.43.0


From ac82bd9648e793d2f4a4e1e63b8cd619d2c8bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:02 +0000
Subject: [PATCH 44/55] fix: nested calls with other arguments are not
 rewritten as if they had none

---
 crates/jarl-core/src/utils.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 40df808..c63ae0c 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -261,14 +261,13 @@ pub fn get_nested_functions_content(
     }
 
     // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
-        .items()
-        .into_iter()
-        .find(|x| x.clone().unwrap().name_clause().is_none());
+    let unnamed_args = get_unnamed_args(&arguments?.items());
 
-    if let Some(arg) = unnamed_arg {
-        let value = arg?.value();
-        if let Some(inner) = value
+    if let Some(arg) = unnamed_args.first() {
+        let value = arg.value();
+        // Other unnamed arguments are not part of the pattern and would be lost
+        if unnamed_args.len() == 1
+            && let Some(inner) = value
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
@@ -280,6 +279,7 @@ pub fn get_nested_functions_content(
                 .to_string();
             return Ok(Some((inner_content, call.syntax().clone())));
         }
+        return Ok(None);
     }
 
     // Try piped cases. The call must be on the right side of a pipe binary expression.
@@ -318,14 +318,17 @@ pub fn get_nested_functions_content(
             && let Some(inner_call) = inner_right?.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
-            let has_unnamed_args = inner_call
-                .as_fields()
-                .arguments?
-                .items()
-                .into_iter()
-                .any(|x| x.unwrap().name_clause().is_none());
-            if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
+            let inner_args = inner_call.as_fields().arguments?.items();
+            if get_unnamed_args(&inner_args).is_empty() {
+                // The piped value is the first argument, the named ones are kept
+                let mut content = content_expr?.to_trimmed_string();
+                for arg in get_named_args(&inner_args) {
+                    // The piped value is not the first argument
+                    if arg.value().is_some_and(|x| x.to_trimmed_string() == "_") {
+                        return Ok(None);
+                    }
+                    content.push_str(&format!(", {}", arg.to_trimmed_string()));
+                }
                 return Ok(Some((content, outer_syntax)));
             }
         }
-- 
2.43.0


From 289e1dd228cfbea3f43884e23233a85fcb134d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 45/55] fix: grep(..., value = FALSE) is not rewritten to
 grepv()

---
 crates/jarl-core/src/lints/base/grepv/grepv.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..7dab8e5 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,6 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
+    node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -58,9 +59,13 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
+    let value = unwrap_or_return_none!(get_arg_by_name_then_position(&items, "value", 5));
 
-    if !arg_value_is_present {
+    // `grep(..., value = FALSE)` is not `grepv()`
+    if !value
+        .value()
+        .is_some_and(|x| x.as_r_true_expression().is_some())
+    {
         return Ok(None);
     }
 
-- 
2.43.0


From bf5b5edcae7e38a5729ca6cf287eaf4934bbce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 46/55] fix: no automatic fix for T and F where they name a
 variable

---
 .../true_false_symbol/true_false_symbol.rs    | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs b/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
index 5d4ff83..fddd6c2 100644
--- a/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
+++ b/crates/jarl-core/src/lints/base/true_false_symbol/true_false_symbol.rs
@@ -72,9 +72,11 @@ pub fn true_false_symbol(ast: &RIdentifier) -> anyhow::Result<Option<Diagnostic>
     }
 
     let range = ast.syntax().text_trimmed_range();
-    let diagnostic = Diagnostic::new(
-        TrueFalseSymbol,
-        range,
+
+    // The name of a variable can't be replaced by its value.
+    let fix = if is_variable(ast) {
+        Fix::empty()
+    } else {
         Fix {
             content: if ast.syntax().text_trimmed() == "T" {
                 "TRUE".to_string()
@@ -84,8 +86,30 @@ pub fn true_false_symbol(ast: &RIdentifier) -> anyhow::Result<Option<Diagnostic>
             start: range.start().into(),
             end: range.end().into(),
             to_skip: false,
-        },
-    );
+        }
+    };
+
+    let diagnostic = Diagnostic::new(TrueFalseSymbol, range, fix);
 
     Ok(Some(diagnostic))
 }
+
+/// Checks if the symbol is assigned, indexed, or the index of a `for` loop.
+fn is_variable(ast: &RIdentifier) -> bool {
+    if let Some(parent) = ast.parent::<RBinaryExpression>()
+        && let Ok(operator) = parent.operator()
+    {
+        let target = match operator.kind() {
+            RSyntaxKind::ASSIGN | RSyntaxKind::SUPER_ASSIGN | RSyntaxKind::EQUAL => parent.left(),
+            RSyntaxKind::ASSIGN_RIGHT | RSyntaxKind::SUPER_ASSIGN_RIGHT => parent.right(),
+            _ => return false,
+        };
+        return target.is_ok_and(|x| x.syntax() == ast.syntax());
+    }
+
+    if let Some(parent) = ast.parent::<RForStatement>() {
+        return parent.variable().is_ok_and(|x| x.syntax() == ast.syntax());
+    }
+
+    ast.parent::<RSubset>().is_some() || ast.parent::<RSubset2>().is_some()
+}
-- 
2.43.0


From 689550e16ab1b61b4b9be3919793cd64cf38a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 47/55] fix: system.file(file.path()) fix lost unnamed
 arguments and left an empty one

---
 .../src/lints/base/system_file/system_file.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..35206ab 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, get_named_args, get_unnamed_args, node_contains_comments};
+use crate::utils::{get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 pub struct SystemFile;
@@ -76,7 +76,8 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Safety: at this point we know file_path has length 1.
-    let file_path_value = unwrap_or_return_none!(file_path.first().unwrap().value());
+    let file_path_arg = unwrap_or_return_none!(file_path.first());
+    let file_path_value = unwrap_or_return_none!(file_path_arg.value());
     let file_path_call = unwrap_or_return_none!(file_path_value.as_r_call());
 
     let file_path_inner_content = file_path_call.arguments()?.items().iter().filter(|x| {
@@ -94,9 +95,17 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         .collect::<Vec<String>>()
         .join(", ");
 
-    let other_args = get_named_args(&args)
+    // All the other arguments stay where they are.
+    let new_args = args
         .iter()
-        .map(|x| x.to_trimmed_string())
+        .filter_map(Result::ok)
+        .map(|x| {
+            if x.syntax() == file_path_arg.syntax() {
+                file_path_inner_content.clone()
+            } else {
+                x.to_trimmed_string()
+            }
+        })
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -105,7 +114,7 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({new_args})"),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From 2ae6ae9637ab40a0c9b4dcf3247730afe331b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 48/55] fix: no automatic fix in expect_named and
 expect_true_false when it would lose arguments

---
 .../src/lints/testthat/expect_named/expect_named.rs          | 5 +++--
 .../lints/testthat/expect_true_false/expect_true_false.rs    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..8ef9e19 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -101,7 +101,8 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}expect_named({}, {})", namespace_prefix, x_text, n_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // The other arguments, such as `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..bf3185b 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -105,7 +105,8 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: format!("{}{}({})", namespace_prefix, new_function, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // The other arguments, such as `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
-- 
2.43.0


From 06b27a075b26ddffd745aa929e1073d9c391ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 49/55] fix: sort dropped the other keys of order()

---
 crates/jarl-core/src/lints/base/sort/sort.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index e179b18..2cbc2cb 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Sort;
 
@@ -106,6 +106,11 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
         additional_args.push(method.to_trimmed_text());
     }
 
+    // Any other argument of `order()` is another sorting key.
+    if args.iter().count() > additional_args.len() + 1 {
+        return Ok(None);
+    }
+
     let additional_args = additional_args.join(", ");
     let fix = if additional_args.is_empty() {
         format!("sort({})", function_outer.to_trimmed_text())
-- 
2.43.0


From d1056264ab0f47d08e0030aaaf1169fc68604e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:33 +0000
Subject: [PATCH 50/55] fix: no automatic fix in expect_null when it would lose
 arguments

---
 .../src/lints/testthat/expect_null/expect_null.rs         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..619cb95 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -4,7 +4,7 @@ use crate::utils::{
     node_contains_comments,
 };
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -90,7 +90,8 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
             content: format!("{}expect_null({})", namespace_prefix, other_arg_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // The other arguments, such as `info`, would be lost.
+            to_skip: args.iter().count() > 2 || node_contains_comments(ast.syntax()),
         },
     );
 
@@ -133,7 +134,8 @@ fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>>
             content: format!("{}expect_null({})", namespace_prefix, inner_text),
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            // The other arguments, such as `info`, would be lost.
+            to_skip: args.iter().count() > 1 || node_contains_comments(ast.syntax()),
         },
     );
 
-- 
2.43.0


From b19b920d3e67917c37b54474de6a93b1a587f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 51/55] fix: string_boundary read named arguments by their
 position

---
 .../base/string_boundary/string_boundary.rs   | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..efa6ad4 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -61,23 +61,21 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
         return Ok(None);
     }
 
-    // Get arguments
-    let arguments = call.arguments()?;
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    // Need at least 3 arguments (x, start, end)
-    if args.len() < 3 {
-        return Ok(None);
-    }
+    // Need 3 arguments (x, start, end): R matches those that are named first
+    let args = call.arguments()?.items();
+    let mut unnamed_args = get_unnamed_args(&args).into_iter();
+    let [x_name, start_name, end_name] = match func_name.as_str() {
+        "substr" => ["x", "start", "stop"],
+        _ => ["text", "first", "last"],
+    };
+    let x_arg = get_arg_by_name(&args, x_name).or_else(|| unnamed_args.next());
+    let start_arg = get_arg_by_name(&args, start_name).or_else(|| unnamed_args.next());
+    let end_arg = get_arg_by_name(&args, end_name).or_else(|| unnamed_args.next());
 
     // Extract the expression values from arguments
-    let x_arg = unwrap_or_return_none!(args[0].value());
-    let start_arg = unwrap_or_return_none!(args[1].value());
-    let end_arg = unwrap_or_return_none!(args[2].value());
+    let x_arg = unwrap_or_return_none!(x_arg.and_then(|arg| arg.value()));
+    let start_arg = unwrap_or_return_none!(start_arg.and_then(|arg| arg.value()));
+    let end_arg = unwrap_or_return_none!(end_arg.and_then(|arg| arg.value()));
 
     // Get the string being compared
     let string_text = string_expr.syntax().text_trimmed();
-- 
2.43.0


From 9b40d1328d08fdc0007fb35239a6c512dc22ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 52/55] fix: put fixes between parentheses where an operator
 around them would take only a part of them

---
 .../src/lints/base/all_equal/all_equal.rs     |  8 +-
 .../base/any_duplicated/any_duplicated.rs     |  7 +-
 .../comparison_negation.rs                    | 15 ++--
 .../base/outer_negation/outer_negation.rs     |  8 +-
 crates/jarl-core/src/utils_ast.rs             | 88 +++++++++++++++++++
 5 files changed, 116 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index f308738..7d5baef 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, get_nested_functions_content, node_contains_comments};
-use crate::utils_ast::AstNodeExt;
+use crate::utils_ast::{AstNodeExt, binding_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -64,7 +64,11 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             ),
             range,
             Fix {
-                content: format!("!isTRUE(all.equal({inner_content}))"),
+                content: parenthesize_in_place_of(
+                    &outer_syntax,
+                    format!("!isTRUE(all.equal({inner_content}))"),
+                    binding_strength("!"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
index 808aa08..7370244 100644
--- a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
+++ b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils_ast::{binding_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 
 pub struct AnyDuplicated;
@@ -56,7 +57,11 @@ pub fn any_duplicated(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         AnyDuplicated,
         range,
         Fix {
-            content: format!("anyDuplicated({inner_content}) > 0"),
+            content: parenthesize_in_place_of(
+                &outer_syntax,
+                format!("anyDuplicated({inner_content}) > 0"),
+                binding_strength(">"),
+            ),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
index b204ed6..006232e 100644
--- a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
+++ b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::node_contains_comments;
+use crate::utils_ast::{binding_strength, expression_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -74,11 +75,15 @@ pub fn comparison_negation(ast: &RUnaryExpression) -> anyhow::Result<Option<Diag
         ),
         range,
         Fix {
-            content: format!(
-                "{} {} {}",
-                left.to_trimmed_text(),
-                replacement_operator,
-                right.to_trimmed_text()
+            content: parenthesize_in_place_of(
+                ast.syntax(),
+                format!(
+                    "{} {} {}",
+                    left.to_trimmed_text(),
+                    replacement_operator,
+                    right.to_trimmed_text()
+                ),
+                binding_strength(replacement_operator).min(expression_strength(&right)),
             ),
             start: range.start().into(),
             end: range.end().into(),
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c8427da..33f832c 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_position, node_contains_comments};
-use crate::utils_ast::AstNodeExt;
+use crate::utils_ast::{AstNodeExt, binding_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -86,7 +86,11 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         _ => unreachable!(),
     };
 
-    let fix = format!("!{}({})", replacement_function, content);
+    let fix = parenthesize_in_place_of(
+        ast.syntax(),
+        format!("!{}({})", replacement_function, content),
+        binding_strength("!"),
+    );
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new(
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..650ca4e 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -89,3 +89,91 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
 
 // Blanket implementation for all R AST node types
 impl<T> AstNodeExt for T where T: AstNode<Language = RLanguage> {}
+
+/// How tightly an R operator binds its operands, from the loosest (`?`) to the
+/// tightest.
+pub fn binding_strength(operator: &str) -> u8 {
+    match operator {
+        "?" => 1,
+        "=" => 2,
+        "<-" | "<<-" | ":=" => 3,
+        "->" | "->>" => 4,
+        "~" => 5,
+        "|" | "||" => 6,
+        "&" | "&&" => 7,
+        "!" => 8,
+        "==" | "!=" | "<" | "<=" | ">" | ">=" => 9,
+        "+" | "-" => 10,
+        "*" | "/" => 11,
+        ":" => 13,
+        "^" | "**" => 15,
+        // `|>` and the `%...%` operators
+        _ => 12,
+    }
+}
+
+/// Same as `binding_strength()` for operators with a single operand.
+fn unary_binding_strength(operator: &str) -> u8 {
+    match operator {
+        "+" | "-" => 14,
+        _ => binding_strength(operator),
+    }
+}
+
+/// How tightly the parts of an expression hold together: the strength of the
+/// loosest operator that isn't closed on the right, the highest value if an
+/// operator cannot take the expression apart, e.g. for a call.
+pub fn expression_strength(expr: &AnyRExpression) -> u8 {
+    match expr {
+        AnyRExpression::RBinaryExpression(x) => {
+            let (Ok(operator), Ok(right)) = (x.operator(), x.right()) else {
+                return 0;
+            };
+            binding_strength(operator.text_trimmed()).min(expression_strength(&right))
+        }
+        AnyRExpression::RUnaryExpression(x) => {
+            let (Ok(operator), Ok(argument)) = (x.operator(), x.argument()) else {
+                return 0;
+            };
+            unary_binding_strength(operator.text_trimmed()).min(expression_strength(&argument))
+        }
+        AnyRExpression::RIfStatement(_)
+        | AnyRExpression::RForStatement(_)
+        | AnyRExpression::RWhileStatement(_)
+        | AnyRExpression::RRepeatStatement(_)
+        | AnyRExpression::RFunctionDefinition(_) => 0,
+        _ => u8::MAX,
+    }
+}
+
+/// The code that replaces `node`. This is `code`, between parentheses if what
+/// is around `node` would otherwise apply to a part of `code` only, e.g. `!x`
+/// in place of the call in `f(y) + 1`. `strength` tells how tightly the parts
+/// of `code` hold together.
+pub fn parenthesize_in_place_of(node: &RSyntaxNode, code: String, strength: u8) -> String {
+    let Some(parent) = node.parent() else {
+        return code;
+    };
+
+    let needs_parentheses = if let Some(binary) = RBinaryExpression::cast_ref(&parent) {
+        binary
+            .operator()
+            .is_ok_and(|operator| binding_strength(operator.text_trimmed()) >= strength)
+    } else if let Some(unary) = RUnaryExpression::cast_ref(&parent) {
+        unary
+            .operator()
+            .is_ok_and(|operator| unary_binding_strength(operator.text_trimmed()) > strength)
+    } else {
+        strength < u8::MAX
+            && (RCall::can_cast(parent.kind())
+                || RSubset::can_cast(parent.kind())
+                || RSubset2::can_cast(parent.kind())
+                || RExtractExpression::can_cast(parent.kind()))
+    };
+
+    if needs_parentheses {
+        format!("({code})")
+    } else {
+        code
+    }
+}
-- 
2.43.0


From 6dde318863466dd8b4ceaa74e780d0aa9f34b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 53/55] fix: keep the condition of a redundant ifelse()
 together when it is an operand

---
 .../base/redundant_ifelse/redundant_ifelse.rs      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
index 9d1077d..7e38ee4 100644
--- a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
+++ b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils_ast::{binding_strength, expression_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -92,7 +93,11 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `condition` directly.".to_string(),
             Fix {
-                content: arg_cond.to_string(),
+                content: parenthesize_in_place_of(
+                    ast.syntax(),
+                    arg_cond.to_string(),
+                    expression_strength(&arg_cond),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
@@ -103,8 +108,11 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `!condition` directly.".to_string(),
             Fix {
-                content: format!("!({})", arg_cond),
-
+                content: parenthesize_in_place_of(
+                    ast.syntax(),
+                    format!("!({})", arg_cond),
+                    binding_strength("!"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From 3ec3d23623b63923065e03f71cad1135f3ad4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:21 +0000
Subject: [PATCH 54/55] fix: keep the operands of a coalesced if statement
 together

---
 .../src/lints/base/coalesce/coalesce.rs       | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..42b618e 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils_ast::{binding_strength, expression_strength, parenthesize_in_place_of};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
 
@@ -106,10 +107,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let alternative_str = extract_single_expression(&alternative);
-        let consequence_str = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
 
-        let inside_null_same_as_alternative = fn_body.to_trimmed_string() == alternative_str;
+        let inside_null_same_as_alternative =
+            fn_body.to_trimmed_string() == alternative.to_trimmed_string();
 
         if !inside_null_same_as_alternative {
             return Ok(None);
@@ -118,7 +120,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = coalesced(ast, fn_body, &consequence);
         }
     }
 
@@ -152,10 +154,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let consequence_str = extract_single_expression(&consequence);
-        let alternative_str = extract_single_expression(&alternative);
+        let consequence = extract_single_expression(&consequence);
+        let alternative = extract_single_expression(&alternative);
 
-        let inside_null_same_as_consequence = fn_body.to_trimmed_string() == consequence_str;
+        let inside_null_same_as_consequence =
+            fn_body.to_trimmed_string() == consequence.to_trimmed_string();
 
         if !inside_null_same_as_consequence {
             return Ok(None);
@@ -164,7 +167,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = coalesced(ast, fn_body, &alternative);
         }
     }
 
@@ -202,16 +205,35 @@ fn has_multiple_expressions(input: &AnyRExpression) -> bool {
 }
 
 // Extract single expression from braced expressions, or return the expression as-is
-fn extract_single_expression(input: &AnyRExpression) -> String {
+fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     if let Some(braced) = input.as_r_braced_expressions() {
         let expressions: Vec<_> = braced.expressions().into_iter().collect();
         if expressions.len() == 1 {
             // Single expression in braces, extract it
             if let Some(expr) = expressions.first() {
-                return expr.to_trimmed_string();
+                return expr.clone();
             }
         }
     }
 
-    input.to_trimmed_string()
+    input.clone()
+}
+
+// The code `left %||% right` that replaces the `if` statement
+fn coalesced(ast: &RIfStatement, left: &AnyRExpression, right: &AnyRExpression) -> String {
+    parenthesize_in_place_of(
+        ast.syntax(),
+        format!("{} %||% {}", operand(left), operand(right)),
+        binding_strength("%||%"),
+    )
+}
+
+// The code of an operand of `%||%`
+fn operand(expr: &AnyRExpression) -> String {
+    let code = expr.to_trimmed_string();
+    if expression_strength(expr) <= binding_strength("%||%") {
+        format!("({code})")
+    } else {
+        code
+    }
 }
-- 
2.43.0


From bded0f62d35bae4e1af8b8dc7ca4856223fd3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:34 +0000
Subject: [PATCH 55/55] fix: withhold the fix of an assignment that would be
 read differently with the other operator

---
 .../src/lints/base/assignment/assignment.rs   | 49 ++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index de7c899..18e0485 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -115,9 +116,55 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: has_comments_around_operator,
+            to_skip: has_comments_around_operator || changes_meaning(ast, assignment)?,
         },
     );
 
     Ok(Some(diagnostic))
 }
+
+/// Whether the assignment would be read differently with the other operator:
+/// `=` binds less tightly than `<-`, which itself binds less tightly than `->`.
+/// Moreover, `=` names an argument or a parameter in a call or a function
+/// definition, and isn't accepted in the head of `if`, `while` and `for`.
+fn changes_meaning(ast: &RBinaryExpression, assignment: RSyntaxKind) -> anyhow::Result<bool> {
+    let Some(parent) = ast.syntax().parent() else {
+        return Ok(false);
+    };
+
+    let outer_operator = match RBinaryExpression::cast_ref(&parent) {
+        Some(outer) => Some(outer.operator()?.kind()),
+        None => None,
+    };
+
+    if assignment == RSyntaxKind::ASSIGN {
+        // `x = y = 1` and `1 -> x -> y`
+        let value_uses_equal = match ast.right()?.as_r_binary_expression() {
+            Some(value) => value.operator()?.kind() == RSyntaxKind::EQUAL,
+            None => false,
+        };
+        return Ok(value_uses_equal
+            || matches!(
+                outer_operator,
+                Some(RSyntaxKind::ASSIGN_RIGHT | RSyntaxKind::SUPER_ASSIGN_RIGHT)
+            ));
+    }
+
+    let is_body = ast.parent_is_if_body() || ast.parent_is_while_body() || ast.parent_is_for_body();
+
+    Ok(match parent.kind() {
+        RSyntaxKind::R_BINARY_EXPRESSION => outer_operator != Some(RSyntaxKind::EQUAL),
+        RSyntaxKind::R_IF_STATEMENT
+        | RSyntaxKind::R_WHILE_STATEMENT
+        | RSyntaxKind::R_FOR_STATEMENT => !is_body,
+        kind => RArgument::can_cast(kind) || is_parameter(&parent),
+    })
+}
+
+/// Whether the node is a parameter of a function or the default value of one
+fn is_parameter(node: &RSyntaxNode) -> bool {
+    node.kind() == RSyntaxKind::R_PARAMETER
+        || node
+            .parent()
+            .is_some_and(|x| x.kind() == RSyntaxKind::R_PARAMETER)
+}
-- 
2.43.0

