From a70c06cd8e90c67466444d6fdb80f56b3d6009e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 01/44] fix: do not extract {ruby}, {rust} or {Rcpp} chunks as
 R code

---
 crates/jarl-core/src/rmd/extraction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rmd/extraction.rs b/crates/jarl-core/src/rmd/extraction.rs
index 85da990..ab8c5d7 100644
--- a/crates/jarl-core/src/rmd/extraction.rs
+++ b/crates/jarl-core/src/rmd/extraction.rs
@@ -6,11 +6,12 @@ use std::sync::LazyLock;
 /// Matches the opening fence of an executable R code chunk.
 ///
 /// Captures group 1: the backtick sequence (e.g. "```").
-/// Accepts `{r}`, `{r label}`, `{r, options}`, etc.
+/// Accepts `{r}`, `{r label}`, `{r, options}`, etc., but not other engines whose
+/// name starts with an "r" (`{ruby}`, `{rust}`, `{Rcpp}`).
 /// Leading spaces or tabs are allowed to support indented chunks (e.g. inside
 /// list items).
 static OPEN_FENCE: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());
+    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR](?:[ \t,][^}]*)?\}").unwrap());
 
 /// An R code chunk extracted from an Rmd/Qmd document.
 #[derive(Debug)]
-- 
2.43.0


From 2b59f30e8bf4096f072a03a7c8ef97b461f40617 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 02/44] fix: do not panic on malformed R dependencies in
 DESCRIPTION, accept "R(>= x)"

---
 crates/jarl-core/src/description.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..1c90bc3 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -27,7 +27,6 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -38,22 +37,21 @@ impl Description {
 }
 
 /// Extract version number from an R dependency string like "R (>= 4.3.0)"
+///
+/// Returns `None` if this isn't a dependency on R or if it has no version.
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
-    // Look for version requirement in parentheses
-    if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
-    {
-        let version_part = &dep[start + 1..end];
-        // Remove >= operator and extract just the version number
-        let version = version_part.replace(">=", "").trim().to_string();
-
-        if !version.is_empty() {
-            return Some(version);
-        }
+    // The space before the parenthesis is optional.
+    let requirement = dep.strip_prefix('R')?.trim_start().strip_prefix('(')?;
+    let end = requirement.find(')')?;
+
+    // Remove >= operator and extract just the version number
+    let version = requirement[..end].replace(">=", "").trim().to_string();
+
+    if version.is_empty() {
+        return None;
     }
 
-    // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    Some(version)
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 98935a072f4757f373c2d40acab506d36c3380d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 03/44] fix: apply the changes of a didChange notification in
 order and atomically

---
 crates/jarl-lsp/src/document.rs | 47 +++++++++++++--------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..e7d1e17 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,20 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
-
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
+        // Each change applies to the document left by the previous one. They are
+        // applied to a copy so that nothing changes if one of them is invalid.
+        let mut updated = Self::new(self.content.clone(), new_version);
+
+        for (i, change) in changes.into_iter().enumerate() {
+            // No range means that the new text is the full content.
+            let Some(range) = change.range else {
+                updated = Self::new(change.text, new_version);
+                continue;
+            };
 
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +155,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +163,15 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
+        self.content = updated.content;
         self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        self.line_starts = updated.line_starts;
         Ok(())
     }
 
-- 
2.43.0


From 068b65eb83fbed9a2ccdddae86878e98e96b47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 04/44] fix: resolve UTF-8 positions past the end of a line or
 inside a character without failing or panicking

---
 crates/jarl-lsp/src/document.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index e7d1e17..6580e1e 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -200,9 +200,12 @@ impl TextDocument {
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                // As in the other encodings, a position past the end of the line
+                // is the end of the line.
+                let character = character.min(line_content.len());
+                if !line_content.is_char_boundary(character) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
+                        "Character {} is in the middle of a UTF-8 sequence on line {}",
                         character,
                         line
                     ));
-- 
2.43.0


From d5ee3c25cf60e6ca84067ce8f1f672eebefccb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 05/44] fix: do not let a position past the end of a CRLF line
 point between CR and LF

---
 crates/jarl-lsp/src/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 6580e1e..5e8ad7c 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -196,7 +196,13 @@ impl TextDocument {
             self.content.len()
         };
 
+        // With CRLF line endings, the carriage return isn't part of the line either.
         let line_content = &self.content[line_start..line_end];
+        let line_content = if line_end < self.content.len() {
+            line_content.strip_suffix('\r').unwrap_or(line_content)
+        } else {
+            line_content
+        };
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-- 
2.43.0


From 9d40e970cae311a89b88c1a56480b6efd203e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 06/44] fix: apply fixes at their byte ranges in the original
 text

Positions were shifted by a difference of character counts although they are
byte offsets, so fixes after a changed multi-byte character were misplaced or
panicked, and overlapping fixes were applied on top of a fix that had made the
text longer.
---
 crates/jarl-core/src/fix.rs | 38 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..ddf847b 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -27,39 +27,31 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         .map(|diagnostic| &diagnostic.fix)
         .collect::<Vec<_>>();
 
-    let old_content = contents;
-    let mut new_content = old_content.to_string();
-    let mut last_modified_pos = 0;
+    let mut new_content = String::with_capacity(contents.len());
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
-    let mut new_length = old_length;
+    // Ranges of fixes are byte offsets in the original contents, so this is
+    // the end of the last applied fix in the original contents.
+    let mut last_end = 0;
 
     for fix in fixes {
-        let mut start: i32 = fix.start.try_into().unwrap();
-        let mut end: i32 = fix.end.try_into().unwrap();
-
-        // Adjust the range of the fix based on the changes in the contents due
-        // to previous fixes.
-        let diff_length = new_length - old_length;
-        start += diff_length;
-        end += diff_length;
+        // Diagnostics without a fix.
+        if fix.to_skip {
+            continue;
+        }
 
         // We don't know how to handle these cases in a single pass yet.
-        if start < last_modified_pos {
-            if !has_skipped_fixes {
-                has_skipped_fixes = true;
-            }
+        if fix.start < last_end {
+            has_skipped_fixes = true;
             continue;
         }
 
-        let start_usize = start as usize;
-        let end_usize = end as usize;
-
-        new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_content.push_str(&contents[last_end..fix.start]);
+        new_content.push_str(&fix.content);
+        last_end = fix.end;
     }
 
+    new_content.push_str(&contents[last_end..]);
+
     (has_skipped_fixes, new_content)
 }
-- 
2.43.0


From 7bf726e765e5bacca51325c216533ceb3b430a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 07/44] fix: report the line of diagnostics after the last
 expression

New lines were counted in the expression list, which doesn't contain the
comments after the last expression, so e.g. suppression comments at the end of
a file were reported on a wrong line.
---
 crates/jarl-core/src/check.rs |  6 ++++--
 crates/jarl-core/src/utils.rs | 20 +++-----------------
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..b341837 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,7 +211,9 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
+    // Take the new lines from the file and not from the AST because those in
+    // the comments that follow the last expression aren't in the AST's nodes.
+    let loc_new_lines = find_new_lines_from_content(contents);
     let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
 
     Ok(diagnostics)
@@ -350,6 +352,6 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
             .unwrap_or(true)
     });
 
-    let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
+    let loc_new_lines = find_new_lines_from_content(contents);
     Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..54df78d 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -29,26 +29,12 @@ macro_rules! unwrap_or_return_none {
 
 /// Find byte positions of newline characters in a string.
 ///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
+/// Used to compute line/column locations in the original file (for Rmd/Qmd,
+/// after position remapping from chunk space to file space).
 pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
     content.match_indices('\n').map(|(i, _)| i).collect()
 }
 
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
 /// Takes the start of the range of a Diagnostic and the indices for the new
 /// lines. Returns the (row, col) position of the Diagnostic in the file.
 ///
-- 
2.43.0


From 271cfbed8327a7782335d6db02ac2befc290e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 08/44] fix: --fix-only implies --fix and does not apply unsafe
 fixes without --unsafe-fixes

---
 crates/jarl-core/src/config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..bf2b708 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -106,9 +106,12 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
+    // --fix-only implies --fix.
+    let fix = check_config.fix || check_config.fix_only;
+
     // Resolve the interaction between --fix and --unsafe-fixes first. Using
     // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
+    let rules_to_apply = match (fix, check_config.unsafe_fixes) {
         (false, false) => rules.clone(),
 
         (true, false) => rules
@@ -126,7 +129,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
@@ -147,7 +150,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes: fix,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
-- 
2.43.0


From 08c38dd851ebdbc6634428fb9a2a9ed47b00fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 09/44] fix: find the R version in the DESCRIPTION of the
 package a file belongs to

---
 crates/jarl-core/src/config.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index bf2b708..12c5a11 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -522,15 +522,14 @@ fn determine_minimum_r_version(
     // TODO: this seems wasteful but I don't have a good infrastructure for now
     // for getting the common root of the paths.
     for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
-
-        if desc_path.exists() {
+        // Files of a package are usually not next to its DESCRIPTION, e.g.
+        // those in "R/", so look for it in the parent folders too.
+        let desc_path = path
+            .ancestors()
+            .map(|dir| dir.join("DESCRIPTION"))
+            .find(|desc_path| desc_path.is_file());
+
+        if let Some(desc_path) = desc_path {
             let desc = fs::read_to_string(&desc_path)?;
             if let Ok(versions) = Description::get_depend_r_version(&desc)
                 && let Some(version_str) = versions.first()
-- 
2.43.0


From 75b487a5037f78e669ee8d1663fcf50841fe2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 10/44] fix: count modified files whose name is not UTF-8 as
 uncommitted changes

---
 crates/jarl-core/src/vcs.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..df8cf2d 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -71,14 +71,14 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
         repo_opts.include_untracked(true);
 
         for status in repo.statuses(Some(&mut repo_opts))?.iter() {
-            if let Some(path) = status.path() {
-                match status.status() {
-                    git2::Status::CURRENT => (),
-                    _ => {
-                        all_dirty_files.push(path.to_string());
-                    }
-                };
-            }
+            match status.status() {
+                git2::Status::CURRENT => (),
+                _ => {
+                    // The path isn't necessarily valid UTF-8.
+                    let path = String::from_utf8_lossy(status.path_bytes());
+                    all_dirty_files.push(path.to_string());
+                }
+            };
         }
     }
 
-- 
2.43.0


From 7cef9672c156642a1b2991b4d8d3d88393e9bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 11/44] fix: comments at the end of a block do not suppress the
 code above them

---
 crates/jarl-core/src/suppression.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..1d19873 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -353,10 +353,12 @@ impl SuppressionManager {
         for comment in comments.trailing_comments(node) {
             let range = comment.piece().text_range();
             let is_true_end_of_line = Self::is_same_line_as_code(range, source);
+            // A comment on its own line below `node` applies to the code that
+            // follows it, and here there is none: it doesn't cover `node`.
             Self::process_comment(
                 comment.piece().text(),
                 range,
-                node_range,
+                range,
                 collector,
                 false,
                 is_true_end_of_line,
@@ -534,16 +536,6 @@ impl SuppressionManager {
             }
         }
 
-        // Check trailing comments
-        for comment in self.comments.trailing_comments(node) {
-            let text = comment.piece().text();
-            if let Some(DirectiveParseResult::Valid(LintDirective::Ignore(rule))) =
-                parse_comment_directive(text)
-            {
-                suppressed.insert(rule);
-            }
-        }
-
         // Check dangling comments
         for comment in self.comments.dangling_comments(node) {
             let text = comment.piece().text();
-- 
2.43.0


From c85725e69a82e17a2bff7857b7d5691889ff9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 12/44] fix: nested jarl-ignore-start comments for the same
 rule keep all their regions

---
 crates/jarl-core/src/suppression.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 1d19873..d5efd1e 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -123,8 +123,9 @@ pub struct ChunkSuppression {
 /// Intermediate state used during single-pass comment collection
 struct CommentCollector {
     /// Track start positions per (rule, nesting_level) for building skip regions
-    /// Key: (rule, nesting_level), Value: (region_start_range, comment_range)
-    starts: HashMap<(Rule, usize), (TextRange, TextRange)>,
+    /// Key: (rule, nesting_level), Value: ranges of the start comments that are
+    /// still open, innermost last
+    starts: HashMap<(Rule, usize), Vec<TextRange>>,
     /// Completed skip regions
     skip_regions: Vec<SkipRegion>,
     /// Rules suppressed at file level
@@ -246,8 +247,10 @@ impl SuppressionManager {
         Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
 
         // Any remaining starts without matching ends are unmatched
-        for ((_, _), (comment_range, _)) in collector.starts.drain() {
-            collector.unmatched_start_suppressions.push(comment_range);
+        for (_, comment_ranges) in collector.starts.drain() {
+            collector
+                .unmatched_start_suppressions
+                .extend(comment_ranges);
         }
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
@@ -446,12 +449,16 @@ impl SuppressionManager {
                         // Store with nesting level for proper matching
                         collector
                             .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                            .entry((rule, nesting_level))
+                            .or_default()
+                            .push(comment_range);
                     }
                     LintDirective::IgnoreEnd(rule) => {
                         // Only match with start at the same nesting level
-                        if let Some((start_comment_range, _)) =
-                            collector.starts.remove(&(rule, nesting_level))
+                        if let Some(start_comment_range) = collector
+                            .starts
+                            .get_mut(&(rule, nesting_level))
+                            .and_then(|open| open.pop())
                         {
                             collector.skip_regions.push(SkipRegion {
                                 range: TextRange::new(
-- 
2.43.0


From d540628fee67ac632fc10d84a22efa7ac9ea1cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 13/44] fix: jarl-ignore-file inside the first expression is
 not at the top of the file

---
 crates/jarl-core/src/suppression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index d5efd1e..2e0c810 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -384,7 +384,12 @@ impl SuppressionManager {
 
         // Recursively process children
         // Increment nesting level when entering braced expressions (function bodies, etc.)
-        let mut is_first = is_first_expression;
+        // The top of the file is above the first expression, not inside it.
+        let mut is_first = is_first_expression
+            && matches!(
+                node.kind(),
+                RSyntaxKind::R_ROOT | RSyntaxKind::R_EXPRESSION_LIST
+            );
         for child in node.children() {
             let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
                 nesting_level + 1
-- 
2.43.0


From 798db3f144cc0a630b9acf0c54e2effb40a9f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 14/44] fix: apply the exclude patterns of the closest config
 while looking for files

---
 crates/jarl-core/src/discovery.rs | 96 +++++++++++++++++--------------
 1 file changed, 54 insertions(+), 42 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..e9d515f 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -5,6 +5,7 @@
 // MIT License - Posit PBC
 
 use ignore::DirEntry;
+use ignore::overrides::{Override, OverrideBuilder};
 use rustc_hash::FxHashSet;
 use std::path::Path;
 use std::path::PathBuf;
@@ -228,44 +229,36 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     // Add exclude patterns from settings if linter settings should be used
     if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
+        // One set of exclude patterns per config, and one for the entries that
+        // don't belong to any.
+        let excludes: Vec<(PathBuf, Override)> = resolver
+            .items()
+            .iter()
+            .map(|item| {
+                let linter = &item.value().linter;
+                let custom = linter.exclude.iter().flatten().map(String::as_str);
+                let overrides =
+                    exclude_overrides(item.path(), custom, linter.default_exclude.unwrap_or(true));
+                (item.path().to_path_buf(), overrides)
+            })
+            .collect();
+        let no_config = exclude_overrides(Path::new("."), std::iter::empty(), !no_default_exclude);
+
+        // An entry is excluded by the config that is closest to the directory
+        // it is in.
+        builder.filter_entry(move |entry| {
+            let path = entry.path();
+            let Some(parent) = path.parent().filter(|_| entry.depth() > 0) else {
+                return true;
+            };
+            let overrides = excludes
+                .iter()
+                .filter(|(root, _)| parent.starts_with(root))
+                .max_by_key(|(root, _)| root.components().count())
+                .map_or(&no_config, |(_, overrides)| overrides);
+            let is_dir = entry.file_type().is_some_and(|ft| ft.is_dir());
+            !overrides.matched(path, is_dir).is_ignore()
+        });
     }
 
     // Prefer `available_parallelism()`, with a max of 12 threads
@@ -286,10 +279,8 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     // Post-filter: apply per-config exclude and include patterns.
     //
-    // The WalkBuilder above only applies the first config's exclude patterns.
-    // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
-    // resolving each file to its nearest config.
+    // The walk above applies the exclude patterns to what it finds in
+    // directories, but not to the files that are provided explicitly.
     if use_linter_settings {
         files.retain(|result| {
             let Ok(path) = result else {
@@ -354,6 +345,27 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Build the overrides that ignore the exclude patterns of a config, which are
+/// relative to `root`
+fn exclude_overrides<'a>(
+    root: &Path,
+    custom: impl Iterator<Item = &'a str>,
+    default_exclude: bool,
+) -> Override {
+    let default = DEFAULT_EXCLUDE_PATTERNS
+        .iter()
+        .copied()
+        .filter(|_| default_exclude);
+    let mut builder = OverrideBuilder::new(root);
+    for pattern in custom.chain(default) {
+        // Add as negation pattern (exclude)
+        if let Err(e) = builder.add(&format!("!{pattern}")) {
+            tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
+        }
+    }
+    builder.build().unwrap_or_else(|_| Override::empty())
+}
+
 /// Shared state across the threads of the walker
 struct FilesState {
     files: std::sync::Mutex<DiscoveredFiles>,
-- 
2.43.0


From d916caf44e0ed0f12dfd81da821c1724bd8ec59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 15/44] fix: apply the user's own config to the files without a
 closer one

---
 crates/jarl-core/src/discovery.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index e9d515f..ea48fe4 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -99,8 +99,11 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
             && let Some(toml) = find_jarl_toml_in_directory(config_dir)
         {
             let settings = parse_settings(&toml, config_dir)?;
+            // This config applies to all files that don't have a closer one,
+            // not only to those in the config directory.
+            let root = path.ancestors().last().unwrap_or(config_dir);
             discovered_settings.push(DiscoveredSettings {
-                directory: config_dir.clone(),
+                directory: root.to_path_buf(),
                 settings,
                 config_path: Some(toml),
             });
-- 
2.43.0


From 4e140b50a1f6f8698473b10d369efe08eb55e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 16/44] fix: report files that cannot be parsed with
 --statistics

---
 crates/jarl/src/commands/check.rs |  2 +-
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 crates/jarl/src/statistics.rs     | 11 +++++++++++
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..7b93c84 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -146,7 +146,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        return print_statistics(&all_diagnostics_flat, &all_errors, parent_config_path);
     }
 
     let mut stdout = std::io::stdout();
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..75a247a 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -107,6 +107,18 @@ pub fn print_notes(notes: &[String]) {
     }
 }
 
+/// Prints the errors of the files that couldn't be checked to stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 #[derive(Debug, Serialize)]
 struct JsonOutput<'a> {
     diagnostics: Vec<&'a Diagnostic>,
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..a32e00f 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -2,13 +2,20 @@ use colored::Colorize;
 use jarl_core::diagnostic::Diagnostic;
 use std::{collections::HashMap, path::PathBuf};
 
+use crate::output_format::print_errors;
 use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    errors: &[(String, anyhow::Error)],
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
+    print_errors(errors);
+
     if diagnostics.is_empty() {
+        if !errors.is_empty() {
+            return Ok(ExitStatus::Error);
+        }
         println!("All checks passed!");
         return Ok(ExitStatus::Success);
     }
@@ -46,5 +53,9 @@ pub fn print_statistics(
         println!("\nUsed '{}'", config_path.display());
     }
 
+    if !errors.is_empty() {
+        return Ok(ExitStatus::Error);
+    }
+
     Ok(ExitStatus::Failure)
 }
-- 
2.43.0


From e3ba6d3a7cdaab0e8db2fdad68b9ca56587b0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 17/44] fix: keep structured output valid when there are no R
 files

---
 crates/jarl/src/commands/check.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 7b93c84..29e5e32 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -71,11 +71,16 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         .collect::<Vec<_>>();
 
     if paths.is_empty() {
-        println!(
-            "{}: {}",
-            "Warning".yellow().bold(),
-            "No R files found under the given path(s).".white().bold()
-        );
+        match args.output_format {
+            // Structured output must stay valid.
+            OutputFormat::Json => JsonEmitter.emit(&mut std::io::stdout(), &[], &[])?,
+            OutputFormat::Github => {}
+            OutputFormat::Full | OutputFormat::Concise => println!(
+                "{}: {}",
+                "Warning".yellow().bold(),
+                "No R files found under the given path(s).".white().bold()
+            ),
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From bb8d6cc14208cd218afad1e41b4700c2aec53c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 18/44] fix: see symbols with non-ASCII letters when looking
 for unused functions

---
 .../base/unused_function/unused_function.rs   | 24 ++++---------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..75b1a10 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -191,26 +191,12 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
-            // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
+        // R identifiers start with a letter, `.`, or `_`
+        let is_symbol_char = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
+        for word in line.split(|c: char| !is_symbol_char(c)) {
+            let name = word.trim_start_matches(char::is_numeric);
+            if !name.is_empty() {
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
-- 
2.43.0


From 3a7d87e3b272677946f2346f54e7851c692c9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 19/44] fix: read all export directives that NAMESPACE files
 can have

---
 .../base/unused_function/unused_function.rs   | 65 ++++++++++++++++---
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 75b1a10..bf940fc 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -81,6 +81,46 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
     Some(&rest[..end])
 }
 
+/// Split a NAMESPACE file into its directives: comments are left out,
+/// directives over several lines are joined, those that share a line separated
+/// by `;` aren't.
+fn split_directives(content: &str) -> Vec<String> {
+    let mut directives = vec![String::new()];
+    let mut depth: i32 = 0;
+    let mut quote: Option<char> = None;
+    let mut in_comment = false;
+    let mut escaped = false;
+
+    for c in content.chars() {
+        if in_comment && c != '\n' {
+            continue;
+        }
+        in_comment = false;
+        match (quote, c) {
+            (Some(q), _) if c == q && !escaped => quote = None,
+            (Some(_), _) => {}
+            (None, '"' | '\'' | '`') => quote = Some(c),
+            (None, '(') => depth += 1,
+            (None, ')') => depth -= 1,
+            (None, '#') => {
+                in_comment = true;
+                continue;
+            }
+            (None, '\n' | ';') if depth <= 0 => {
+                directives.push(String::new());
+                continue;
+            }
+            _ => {}
+        }
+        escaped = quote.is_some() && c == '\\' && !escaped;
+        if let Some(directive) = directives.last_mut() {
+            directive.push(c);
+        }
+    }
+
+    directives
+}
+
 /// Parse a NAMESPACE file and return the set of exported function names.
 ///
 /// Handles both `export(name)` directives and `exportPattern(regex)` directives.
@@ -89,11 +129,11 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
+    for line in split_directives(content) {
         let trimmed = line.trim();
 
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
+        // Skip empty lines
+        if trimmed.is_empty() {
             continue;
         }
 
@@ -112,18 +152,25 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                 match directive {
                     "export" => {
                         for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
+                            let name = name.trim().trim_matches(['"', '\'', '`']);
                             if !name.is_empty() {
                                 exports.insert(name.to_string());
                             }
                         }
                     }
                     "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
+                        // One or several strings
+                        let quote = if inner.trim().starts_with('\'') {
+                            '\''
+                        } else {
+                            '"'
+                        };
+                        for pattern in inner.split(quote).skip(1).step_by(2) {
+                            if let Ok(re) = Regex::new(&pattern.replace("\\\\", "\\")) {
+                                for &name in all_names {
+                                    if re.is_match(name) {
+                                        exports.insert(name.to_string());
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From d1e17ac5e300a098d3b2d03b4625ab6c711a4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 20/44] fix: only look at directories in the package to find
 what its files are

---
 crates/jarl-core/src/package.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..057a601 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -107,7 +107,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
+    let mut extra_files: Vec<(PathBuf, FileScope)> = Vec::new();
     let mut excluded_r_files: Vec<PathBuf> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
@@ -142,13 +142,13 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
             for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    extra_files.extend(with_scope(collect_files(&dir, has_r_extension), root));
                 }
             }
             // Collect C/C++ files in src/
             let src_dir = root.join("src");
             if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
+                extra_files.extend(with_scope(collect_files(&src_dir, has_cpp_extension), root));
             }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
@@ -162,10 +162,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .iter()
         .map(|p| (p.as_path(), FileScope::R))
         .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
-        }))
+        .chain(extra_files.iter().map(|(p, scope)| (p.as_path(), *scope)))
         .collect();
 
     // Single parallel scan: read each file once. All R files get
@@ -236,6 +233,15 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     PackageAnalysis { duplicate_assignments, unused_functions }
 }
 
+/// Determine the `FileScope` of non-R/ files of the package in `root`. The
+/// directories above `root` don't matter.
+fn with_scope(files: Vec<PathBuf>, root: &Path) -> impl Iterator<Item = (PathBuf, FileScope)> {
+    files.into_iter().map(move |path| {
+        let scope = file_scope_from_path(path.strip_prefix(root).unwrap_or(&path));
+        (path, scope)
+    })
+}
+
 /// Determine the `FileScope` for a non-R/ file based on its path.
 fn file_scope_from_path(path: &Path) -> FileScope {
     let components: Vec<_> = path
-- 
2.43.0


From 51dedfca4c2be10b21a041b23d771b5407fc1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 21/44] fix: check the version control of all files before
 fixing any of them

---
 crates/jarl-core/src/check.rs     | 27 +++++++++++++++++++++++----
 crates/jarl/src/commands/check.rs |  6 +++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index b341837..7c56b6f 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -22,20 +22,39 @@ use crate::fix::*;
 use crate::utils::*;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    check_all(vec![config])
+}
 
+/// Check the files of several configs, e.g. of nested projects.
+pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
     // user to deal with that before applying any fixes.
-    if (config.apply_fixes || config.apply_unsafe_fixes) && !config.paths.is_empty() {
-        let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
-        if let Err(e) = check_version_control(&path_strings, &config) {
+    // This has to happen for all configs before the files of the first one are
+    // fixed since those files aren't clean anymore afterwards.
+    if let Some(config) = configs
+        .iter()
+        .find(|c| c.apply_fixes || c.apply_unsafe_fixes)
+    {
+        let path_strings: Vec<String> = configs
+            .iter()
+            .flat_map(|c| c.paths.iter().map(relativize_path))
+            .collect();
+        if !path_strings.is_empty()
+            && let Err(e) = check_version_control(&path_strings, config)
+        {
             let first_path = path_strings.first().unwrap().clone();
             return vec![(first_path, Err(e))];
         }
     }
 
+    configs.into_iter().flat_map(check_config).collect()
+}
+
+fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
+    let pkg = compute_package_analysis(&config.paths, &config);
+
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 29e5e32..3283593 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -108,15 +108,15 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    let mut configs = Vec::new();
     for (dir_key, group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
+    let file_results = jarl_core::check::check_all(configs);
 
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
-- 
2.43.0


From a995bd6b10a0c08c9a03add61408f306311f20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 22/44] fix: keep the meaning of the code around fixed
 expressions

---
 .../src/lints/base/all_equal/all_equal.rs     |  7 +-
 .../base/any_duplicated/any_duplicated.rs     |  6 +-
 .../src/lints/base/coalesce/coalesce.rs       | 31 +++++--
 .../comparison_negation.rs                    | 24 +++--
 .../base/outer_negation/outer_negation.rs     |  7 +-
 .../base/redundant_ifelse/redundant_ifelse.rs |  6 +-
 crates/jarl-core/src/utils_ast.rs             | 89 +++++++++++++++++++
 7 files changed, 147 insertions(+), 23 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..7b6af14 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, get_nested_functions_content, node_contains_comments};
-use crate::utils_ast::AstNodeExt;
+use crate::utils_ast::{AstNodeExt, replace_in_context};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -64,7 +64,10 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             ),
             range,
             Fix {
-                content: format!("!isTRUE(all.equal({inner_content}))"),
+                content: replace_in_context(
+                    &outer_syntax,
+                    format!("!isTRUE(all.equal({inner_content}))"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
index 808aa08..826d206 100644
--- a/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
+++ b/crates/jarl-core/src/lints/base/any_duplicated/any_duplicated.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_nested_functions_content, node_contains_comments};
+use crate::utils_ast::replace_in_context;
 use air_r_syntax::*;
 
 pub struct AnyDuplicated;
@@ -56,7 +57,10 @@ pub fn any_duplicated(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         AnyDuplicated,
         range,
         Fix {
-            content: format!("anyDuplicated({inner_content}) > 0"),
+            content: replace_in_context(
+                &outer_syntax,
+                format!("anyDuplicated({inner_content}) > 0"),
+            ),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(&outer_syntax),
diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..50e7b24 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils_ast::{replace_in_context, to_operand};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
 
@@ -106,8 +107,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let alternative_str = extract_single_expression(&alternative);
-        let consequence_str = extract_single_expression(&consequence);
+        let alternative_str = extract_single_expression(&alternative).to_trimmed_string();
 
         let inside_null_same_as_alternative = fn_body.to_trimmed_string() == alternative_str;
 
@@ -118,7 +118,14 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = replace_in_context(
+                ast.syntax(),
+                format!(
+                    "{} %||% {}",
+                    to_operand(fn_body),
+                    to_operand(&extract_single_expression(&consequence))
+                ),
+            );
         }
     }
 
@@ -152,8 +159,7 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         }
 
         let fn_body = fn_body.first().unwrap();
-        let consequence_str = extract_single_expression(&consequence);
-        let alternative_str = extract_single_expression(&alternative);
+        let consequence_str = extract_single_expression(&consequence).to_trimmed_string();
 
         let inside_null_same_as_consequence = fn_body.to_trimmed_string() == consequence_str;
 
@@ -164,7 +170,14 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = replace_in_context(
+                ast.syntax(),
+                format!(
+                    "{} %||% {}",
+                    to_operand(fn_body),
+                    to_operand(&extract_single_expression(&alternative))
+                ),
+            );
         }
     }
 
@@ -202,16 +215,16 @@ fn has_multiple_expressions(input: &AnyRExpression) -> bool {
 }
 
 // Extract single expression from braced expressions, or return the expression as-is
-fn extract_single_expression(input: &AnyRExpression) -> String {
+fn extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
     if let Some(braced) = input.as_r_braced_expressions() {
         let expressions: Vec<_> = braced.expressions().into_iter().collect();
         if expressions.len() == 1 {
             // Single expression in braces, extract it
             if let Some(expr) = expressions.first() {
-                return expr.to_trimmed_string();
+                return expr.clone();
             }
         }
     }
 
-    input.to_trimmed_string()
+    input.clone()
 }
diff --git a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
index b204ed6..5ddac14 100644
--- a/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
+++ b/crates/jarl-core/src/lints/base/comparison_negation/comparison_negation.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::node_contains_comments;
+use crate::utils_ast::{binds_tightly, replace_in_context};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -65,6 +66,22 @@ pub fn comparison_negation(ast: &RUnaryExpression) -> anyhow::Result<Option<Diag
         _ => unreachable!(),
     };
 
+    let content = format!(
+        "{} {} {}",
+        left.to_trimmed_text(),
+        replacement_operator,
+        right.to_trimmed_text()
+    );
+    // Line breaks that are fine in parentheses could end the expression outside of them.
+    let content = if [&left, &right]
+        .into_iter()
+        .any(|x| !binds_tightly(x) && x.to_trimmed_string().contains('\n'))
+    {
+        format!("({content})")
+    } else {
+        replace_in_context(ast.syntax(), content)
+    };
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new(
@@ -74,12 +91,7 @@ pub fn comparison_negation(ast: &RUnaryExpression) -> anyhow::Result<Option<Diag
         ),
         range,
         Fix {
-            content: format!(
-                "{} {} {}",
-                left.to_trimmed_text(),
-                replacement_operator,
-                right.to_trimmed_text()
-            ),
+            content,
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..79a1884 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -1,6 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_position, node_contains_comments};
-use crate::utils_ast::AstNodeExt;
+use crate::utils_ast::{AstNodeExt, replace_in_context};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -93,7 +93,10 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         _ => unreachable!(),
     };
 
-    let fix = format!("!{}({})", replacement_function, content);
+    let fix = replace_in_context(
+        ast.syntax(),
+        format!("!{}({})", replacement_function, content),
+    );
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new(
diff --git a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
index 9d1077d..72b9266 100644
--- a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
+++ b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils_ast::{replace_by_expression, replace_in_context};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -92,7 +93,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `condition` directly.".to_string(),
             Fix {
-                content: arg_cond.to_string(),
+                content: replace_by_expression(ast.syntax(), &arg_cond),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
@@ -103,8 +104,7 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             format!("This `{}()` is redundant.", fn_name),
             "Use `!condition` directly.".to_string(),
             Fix {
-                content: format!("!({})", arg_cond),
-
+                content: replace_in_context(ast.syntax(), format!("!({})", arg_cond)),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..e6ac29f 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -87,5 +87,94 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
     }
 }
 
+/// Returns the code that should replace a node, which is `content` with
+/// parentheses around it if the operators around the node would otherwise
+/// only apply to a part of `content`. For example, `-any(!x)` must become
+/// `-(!all(x))`, and `1 + any(!x) + 2` must become `1 + (!all(x)) + 2`.
+///
+/// `content` must bind more tightly than `&&`, see [`replace_by_expression()`]
+/// for arbitrary expressions.
+pub fn replace_in_context(node: &RSyntaxNode, content: String) -> String {
+    if is_in_tight_context(node, false) {
+        format!("({content})")
+    } else {
+        content
+    }
+}
+
+/// Same as [`replace_in_context()`] but the node is replaced by any expression.
+pub fn replace_by_expression(node: &RSyntaxNode, expression: &AnyRExpression) -> String {
+    let content = expression.to_trimmed_string();
+    // Line breaks that are fine in the arguments of a call could end the
+    // expression when it's not in a call anymore.
+    if !binds_tightly(expression) && (content.contains('\n') || is_in_tight_context(node, true)) {
+        format!("({content})")
+    } else {
+        content
+    }
+}
+
+/// Returns true if the expression doesn't need parentheses to be used with any operator.
+pub fn binds_tightly(expression: &AnyRExpression) -> bool {
+    !matches!(
+        expression.syntax().kind(),
+        RSyntaxKind::R_BINARY_EXPRESSION
+            | RSyntaxKind::R_UNARY_EXPRESSION
+            | RSyntaxKind::R_FUNCTION_DEFINITION
+            | RSyntaxKind::R_IF_STATEMENT
+            | RSyntaxKind::R_FOR_STATEMENT
+            | RSyntaxKind::R_WHILE_STATEMENT
+            | RSyntaxKind::R_REPEAT_STATEMENT
+    )
+}
+
+/// Returns the code of an expression so that it can be used with any operator.
+pub fn to_operand(expression: &AnyRExpression) -> String {
+    if binds_tightly(expression) {
+        expression.to_trimmed_string()
+    } else {
+        format!("({})", expression.to_trimmed_string())
+    }
+}
+
+/// Returns true if the node is used with an operator that binds more tightly
+/// than comparisons and `!`, or, if `any_operator` is true, more tightly than
+/// assignments.
+fn is_in_tight_context(node: &RSyntaxNode, any_operator: bool) -> bool {
+    let Some(parent) = node.parent() else {
+        return false;
+    };
+    match parent.kind() {
+        // The arguments of calls are in their own node, so that this is the
+        // function, or the object to extract something from.
+        RSyntaxKind::R_CALL
+        | RSyntaxKind::R_SUBSET
+        | RSyntaxKind::R_SUBSET2
+        | RSyntaxKind::R_EXTRACT_EXPRESSION => true,
+        RSyntaxKind::R_UNARY_EXPRESSION => parent.first_token().is_some_and(|operator| {
+            any_operator || matches!(operator.kind(), RSyntaxKind::PLUS | RSyntaxKind::MINUS)
+        }),
+        RSyntaxKind::R_BINARY_EXPRESSION => {
+            let operator = RBinaryExpression::cast(parent).and_then(|x| x.operator().ok());
+            operator.is_some_and(|operator| match operator.kind() {
+                RSyntaxKind::ASSIGN
+                | RSyntaxKind::ASSIGN_RIGHT
+                | RSyntaxKind::SUPER_ASSIGN
+                | RSyntaxKind::SUPER_ASSIGN_RIGHT
+                | RSyntaxKind::EQUAL
+                | RSyntaxKind::WALRUS => false,
+                RSyntaxKind::AND
+                | RSyntaxKind::AND2
+                | RSyntaxKind::OR
+                | RSyntaxKind::OR2
+                | RSyntaxKind::TILDE
+                | RSyntaxKind::WAT => any_operator,
+                _ => true,
+            })
+        }
+        _ => false,
+    }
+}
+
 // Blanket implementation for all R AST node types
 impl<T> AstNodeExt for T where T: AstNode<Language = RLanguage> {}
-- 
2.43.0


From d5bf17b1d417b11498ab98aaae5e4136be179cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 23/44] fix: report !all.equal() after other unary operators
 than !

---
 crates/jarl-core/src/utils_ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index e6ac29f..3361486 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -78,6 +78,9 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
             // Check if parent's parent is also a unary bang (double negation)
             if let Some(grandparent) = parent.parent()
                 && grandparent.kind() == RSyntaxKind::R_UNARY_EXPRESSION
+                && grandparent
+                    .first_token()
+                    .is_some_and(|operator| operator.kind() == RSyntaxKind::BANG)
             {
                 return false;
             }
-- 
2.43.0


From 00581eb4ed63810d31f1c756876b23c24d3ea792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 24/44] fix: check the expressions that are called or accessed

---
 crates/jarl-core/src/analyze/expression.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..eb5fac3 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -45,12 +45,16 @@ pub(crate) fn check_expression(
                 analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
             }
 
+            check_accessed_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg.unwrap().as_fields().value {
                     check_expression(&expr, checker)?;
                 }
             }
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_accessed_expression(&children.left()?, checker)?;
+        }
         AnyRExpression::RForStatement(children) => {
             analyze::for_loop::for_loop(children, checker)?;
             let RForStatementFields { variable, sequence, body, .. } = children.as_fields();
@@ -101,6 +105,7 @@ pub(crate) fn check_expression(
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
 
+            check_accessed_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -108,6 +113,7 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_accessed_expression(&children.function()?, checker)?;
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
@@ -131,3 +137,17 @@ pub(crate) fn check_expression(
 
     Ok(())
 }
+
+/// Check the expression that is called or from which something is extracted,
+/// such as `foo(x)` in `foo(x)[1]`, `foo(x)$a` or `foo(x)(1)`.
+///
+/// Names of functions and objects are not expressions on their own there.
+fn check_accessed_expression(
+    expression: &AnyRExpression,
+    checker: &mut Checker,
+) -> anyhow::Result<()> {
+    match expression {
+        AnyRExpression::RIdentifier(_) | AnyRExpression::RNamespaceExpression(_) => Ok(()),
+        _ => check_expression(expression, checker),
+    }
+}
-- 
2.43.0


From af630d70fec7eb1745974366b6377119dee605b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 25/44] fix: don't lose comments in fixed expressions

---
 .../jarl-core/src/lints/base/all_equal/all_equal.rs  |  6 +++++-
 .../src/lints/base/assignment/assignment.rs          |  8 +++++++-
 crates/jarl-core/src/utils.rs                        | 12 +++++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 7b6af14..a50e7cc 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -92,7 +92,11 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let msg = "If `all.equal()` is false, it will return a string and not `FALSE`.".to_string();
     let mut range = ast.syntax().text_trimmed_range();
 
+    let mut to_skip = node_contains_comments(ast.syntax());
     let fix_content = if ast.parent_is_bang_unary() {
+        if let Some(parent) = ast.syntax().parent() {
+            to_skip = node_contains_comments(&parent);
+        }
         if let Some(prev) = ast.syntax().prev_sibling_or_token() {
             range = TextRange::new(prev.text_trimmed_range().start(), range.end())
         }
@@ -112,7 +116,7 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: fix_content,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip,
         },
     );
 
diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..522d50d 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,6 +100,12 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // Comments in both sides are kept, those around the operator would be lost.
+    let to_skip = lhs.has_trailing_comments()
+        || operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || rhs.has_leading_comments();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +114,7 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip,
         },
     );
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 54df78d..d2c9e8d 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -388,7 +389,12 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    let range = node.text_trimmed_range();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        token
+            .leading_trivia()
+            .pieces()
+            .chain(token.trailing_trivia().pieces())
+            .any(|piece| piece.is_comments() && range.contains_range(piece.text_range()))
+    })
 }
-- 
2.43.0


From 91f19ff061744956f9263803088532a5ea604192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 26/44] fix: don't lose arguments of piped and nested calls

---
 crates/jarl-core/src/analyze/call.rs | 17 +++++++++++
 crates/jarl-core/src/utils.rs        | 43 +++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/analyze/call.rs b/crates/jarl-core/src/analyze/call.rs
index e7c68f5..1544332 100644
--- a/crates/jarl-core/src/analyze/call.rs
+++ b/crates/jarl-core/src/analyze/call.rs
@@ -1,6 +1,8 @@
 use crate::checker::Checker;
 use crate::rule_set::Rule;
+use crate::utils::is_piped;
 use air_r_syntax::RCall;
+use biome_rowan::AstNode;
 
 use crate::lints::base::all_equal::all_equal::all_equal;
 use crate::lints::base::any_duplicated::any_duplicated::any_duplicated;
@@ -36,6 +38,8 @@ use crate::lints::testthat::expect_true_false::expect_true_false::expect_true_fa
 use crate::lints::testthat::expect_type::expect_type::expect_type;
 
 pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
+    let n_diagnostics = checker.diagnostics.len();
+
     if checker.is_rule_enabled(Rule::AllEqual) {
         checker.report_diagnostic(all_equal(r_expr)?);
     }
@@ -129,5 +133,18 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
     if checker.is_rule_enabled(Rule::WhichGrepl) {
         checker.report_diagnostic(which_grepl(r_expr)?);
     }
+
+    // `x |> f(y)` means `f(x, y)`, so violations found in `f(y)` alone are wrong.
+    // Those without a fix don't depend on the first argument.
+    if is_piped(r_expr) {
+        let start: usize = r_expr.syntax().text_trimmed_range().start().into();
+        let diagnostics = checker.diagnostics.split_off(n_diagnostics);
+        checker.diagnostics.extend(
+            diagnostics
+                .into_iter()
+                .filter(|x| x.fix.content.is_empty() || x.fix.start < start),
+        );
+    }
+
     Ok(())
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index d2c9e8d..a0df037 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -273,6 +273,20 @@ pub fn get_function_namespace_prefix(function: AnyRExpression) -> Option<String>
     None
 }
 
+/// Returns true if the call is on the right side of a pipe, so that it has
+/// another argument than those in parentheses.
+pub fn is_piped(call: &RCall) -> bool {
+    let Some(pipe) = call.syntax().parent().and_then(RBinaryExpression::cast) else {
+        return false;
+    };
+    let is_right = pipe.right().is_ok_and(|x| x.syntax() == call.syntax());
+    is_right
+        && pipe.operator().is_ok_and(|x| {
+            x.kind() == RSyntaxKind::PIPE
+                || (x.kind() == RSyntaxKind::SPECIAL && x.text_trimmed() == "%>%")
+        })
+}
+
 /// Checks if an `RCall` matches one of these patterns and returns `(content, syntax_node)`:
 ///
 /// - `outer_fn(inner_fn(content))`: `syntax_node` is the outer call
@@ -292,15 +306,25 @@ pub fn get_nested_functions_content(
         return Ok(None);
     }
 
-    // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
+    // Other arguments would be lost, but `na.rm` is not relevant in `any()`.
+    let args = arguments?
         .items()
         .into_iter()
-        .find(|x| x.clone().unwrap().name_clause().is_none());
+        .map(|x| x.unwrap())
+        .filter(|x| {
+            let name = x.name_clause().and_then(|x| x.name().ok());
+            outer_fn != "any" || name.is_none_or(|x| x.to_trimmed_text() != "na.rm")
+        })
+        .collect::<Vec<_>>();
+    if args.len() > 1 || args.iter().any(|x| x.name_clause().is_some()) {
+        return Ok(None);
+    }
 
-    if let Some(arg) = unnamed_arg {
-        let value = arg?.value();
-        if let Some(inner) = value
+    // Try nested case: outer_fn(inner_fn(content))
+    if let Some(arg) = args.first() {
+        // `x |> outer_fn(inner_fn(content))` has two arguments.
+        if !is_piped(call)
+            && let Some(inner) = arg.value()
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
@@ -312,6 +336,7 @@ pub fn get_nested_functions_content(
                 .to_string();
             return Ok(Some((inner_content, call.syntax().clone())));
         }
+        return Ok(None);
     }
 
     // Try piped cases. The call must be on the right side of a pipe binary expression.
@@ -357,7 +382,11 @@ pub fn get_nested_functions_content(
                 .into_iter()
                 .any(|x| x.unwrap().name_clause().is_none());
             if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
+                let mut content = content_expr?.to_trimmed_string();
+                let named_args = inner_call.arguments()?.items().to_trimmed_string();
+                if !named_args.is_empty() {
+                    content = format!("{content}, {named_args}");
+                }
                 return Ok(Some((content, outer_syntax)));
             }
         }
-- 
2.43.0


From d492f5ed5b87150bcf2861b52cc40f5442f7f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 27/44] fix: only fix calls of length() that have one argument

---
 .../src/lints/base/length_test/length_test.rs      | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index dbb34e6..945546b 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,9 +1,9 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils_ast::replace_in_context;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use anyhow::Context;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct LengthTest;
 
@@ -49,6 +49,9 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
+    if arguments.iter().count() != 1 {
+        return Ok(None);
+    }
     let mut arg_is_binary_expr = false;
     let mut operator_text: String = "".to_string();
     let mut lhs: String = "".to_string();
@@ -58,7 +61,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = value.context("Found named argument without any value")?;
+                let value = unwrap_or_return_none!(value);
                 if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
@@ -87,7 +90,10 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             LengthTest,
             range,
             Fix {
-                content: format!("length({lhs}) {operator_text} {rhs}"),
+                content: replace_in_context(
+                    ast.syntax(),
+                    format!("length({lhs}) {operator_text} {rhs}"),
+                ),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From f1ad07a8b7b785bae19aee2d22460e0f34eac4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 28/44] fix: don't lose arguments of fixed calls

---
 .../lints/base/class_equals/class_equals.rs   |  5 ++
 .../src/lints/base/fixed_regex/fixed_regex.rs |  4 +-
 .../jarl-core/src/lints/base/grepv/grepv.rs   | 10 ++--
 .../src/lints/base/lengths/lengths.rs         | 41 +++++++++-----
 .../src/lints/base/sprintf/sprintf.rs         |  3 +-
 .../src/lints/base/system_file/system_file.rs | 20 ++++---
 .../testthat/expect_named/expect_named.rs     |  6 ++
 .../lints/testthat/expect_null/expect_null.rs | 12 ++++
 .../expect_true_false/expect_true_false.rs    |  6 ++
 crates/jarl-core/src/utils.rs                 | 55 ++++---------------
 10 files changed, 88 insertions(+), 74 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
index 902c20c..6f37056 100644
--- a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
+++ b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
@@ -141,6 +141,11 @@ pub fn class_identical(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let first_arg = unwrap_or_return_none!(get_arg_by_position(&args, 1));
     let second_arg = unwrap_or_return_none!(get_arg_by_position(&args, 2));
 
+    // `inherits()` doesn't have the other arguments of `identical()`.
+    if get_arg_by_position(&args, 3).is_some() {
+        return Ok(None);
+    }
+
     let first_value = unwrap_or_return_none!(first_arg.value());
     let second_value = unwrap_or_return_none!(second_arg.value());
 
diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..8e4e186 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -63,9 +63,9 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Check if fixed is already set to TRUE
     if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
         && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+        && value.syntax().text_trimmed() != "FALSE"
     {
-        // fixed = TRUE is already set, no need to lint
+        // fixed = TRUE is already set (or might be), no need to lint
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..cac5fef 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,6 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
+    node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -58,9 +59,10 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
-
-    if !arg_value_is_present {
+    // `grepv()` only replaces `value = TRUE`.
+    let value = get_arg_by_name_then_position(&items, "value", 5).and_then(|x| x.value());
+    let value = unwrap_or_return_none!(value).to_trimmed_string();
+    if value != "TRUE" && value != "T" {
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..68c6ebf 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,8 +1,9 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{
+    get_arg_by_name, get_arg_by_name_then_position, get_function_name, node_contains_comments,
+};
 use air_r_syntax::*;
-use anyhow::Context;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Lengths;
 
@@ -55,27 +56,39 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    let (name_x, name_fun) = if fn_name.starts_with("map_") {
+        (".x", ".f")
+    } else {
+        ("X", "FUN")
+    };
+
     let arguments = arguments?.items();
-    let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
-    let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
+    // If only one of the two is named, the other one is the first unnamed argument.
+    let pos_fun = match get_arg_by_name(&arguments, name_x) {
+        Some(_) => 1,
+        None => 2,
+    };
+    let arg_x = get_arg_by_name_then_position(&arguments, name_x, 1);
+    let arg_fun = get_arg_by_name_then_position(&arguments, name_fun, pos_fun);
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_fun) = arg_fun.and_then(|x| x.value())
+        && let Some(arg_x) = arg_x.and_then(|x| x.value())
+        && arg_fun.into_syntax().text_trimmed() == "length"
     {
+        // `lengths()` can only have the type of the output of `vapply()`, other
+        // arguments would be lost.
+        let n_known_args = if fn_name == "vapply" { 3 } else { 2 };
+        let has_other_args = arguments.iter().count() > n_known_args;
+
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.to_trimmed_text()),
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                to_skip: has_other_args || node_contains_comments(ast.syntax()),
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 7ba7020..ff2a5ef 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -106,7 +106,8 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 content: parse_result.output_string,
                 start: range.start().into(),
                 end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+                // The length of the output depends on the other arguments.
+                to_skip: args.iter().count() > 1 || node_contains_comments(ast.syntax()),
             },
         );
         return Ok(Some(diagnostic));
diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..a04cd87 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -71,7 +71,8 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         })
         .collect::<Vec<&RArgument>>();
 
-    if file_path.len() != 1 {
+    // All the components of the path must be in `file.path()`.
+    if file_path.len() != 1 || values.len() != 1 {
         return Ok(None);
     }
 
@@ -89,14 +90,15 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let _ = unwrap_or_return_none!(file_path_inner_content.clone().next());
 
-    let file_path_inner_content = file_path_inner_content
-        .map(|x| x.unwrap().to_trimmed_string())
-        .collect::<Vec<String>>()
-        .join(", ");
+    // `system.file()` doesn't have `fsep`.
+    if !get_named_args(&file_path_call.arguments()?.items()).is_empty() {
+        return Ok(None);
+    }
 
-    let other_args = get_named_args(&args)
-        .iter()
-        .map(|x| x.to_trimmed_string())
+    let other_args = get_named_args(&args);
+    let new_args = file_path_inner_content
+        .map(|x| x.unwrap().to_trimmed_string())
+        .chain(other_args.iter().map(|x| x.to_trimmed_string()))
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -105,7 +107,7 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({new_args})"),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..072e3ef 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -45,6 +45,12 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // The replacement doesn't have all the arguments of the current function,
+    // such as `info` or `label`.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..0d369d9 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -57,6 +57,12 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // The replacement doesn't have all the arguments of the current function,
+    // such as `info` or `label`.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
@@ -100,6 +106,12 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
 fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let args = ast.arguments()?.items();
 
+    // The replacement doesn't have all the arguments of the current function,
+    // such as `info` or `label`.
+    if args.iter().count() > 1 {
+        return Ok(None);
+    }
+
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let object_value = unwrap_or_return_none!(object.value());
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..291414f 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -47,6 +47,12 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
+    // The replacement doesn't have all the arguments of the current function,
+    // such as `info` or `label`.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object_value = unwrap_or_return_none!(object.value());
     let expected_value = unwrap_or_return_none!(expected.value());
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index a0df037..96ba6fa 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -153,56 +153,23 @@ pub fn get_arg_by_name_then_position(
     }
 }
 
-/// Checks whether an argument named `name` or in position `pos` exist in the
-/// argument list passed as input.
-pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) -> bool {
-    get_arg_by_name_then_position(args, name, position).is_some()
-}
-
 /// Takes a list of arguments and removes the one that is named `name` or the
-/// one in position `pos` if no argument was found in the first step.
+/// unnamed one in position `pos` if no argument was found in the first step,
+/// see `get_arg_by_name_then_position()`.
 pub fn drop_arg_by_name_or_position(
     args: &RArgumentList,
     name: &str,
     pos: usize,
 ) -> Option<Vec<RArgument>> {
-    let mut dropped_by_name = false;
-
-    let by_name: Vec<RArgument> = args
-        .iter()
-        .filter_map(|arg| {
-            let arg = arg.clone().unwrap();
-            if let Some(name_clause) = arg.name_clause()
-                && let Ok(n) = name_clause.name()
-                && n.to_string().trim() == name
-            {
-                dropped_by_name = true;
-                return None;
-            }
-            Some(arg)
-        })
-        .collect();
-
-    if dropped_by_name {
-        return Some(by_name);
-    }
-
-    let by_pos: Vec<RArgument> = args
-        .iter()
-        .enumerate()
-        .filter_map(|(i, arg)| {
-            if i == pos - 1 {
-                return None;
-            }
-            Some(arg.clone().unwrap())
-        })
-        .collect();
-
-    if by_pos.len() != args.len() {
-        Some(by_pos)
-    } else {
-        None
-    }
+    let dropped = get_arg_by_name_then_position(args, name, pos)?;
+    let dropped_range = dropped.syntax().text_range();
+
+    Some(
+        args.iter()
+            .map(|arg| arg.unwrap())
+            .filter(|arg| arg.syntax().text_range() != dropped_range)
+            .collect(),
+    )
 }
 
 /// Return the function name of an expression. This takes AnyRExpression because
-- 
2.43.0


From 30d04ee2aaf0838c3a30a89372a215b1bcaf3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 29/44] fix: don't panic when the argument n of sample() has no
 value

---
 crates/jarl-core/src/lints/base/sample_int/sample_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..38a23df 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -62,7 +62,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From d0993c063fbae4e8023a7a1d42848f2538a68e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 30/44] Revert "fix: only fix calls of length() that have one
 argument"

Its change follows in the caller.
---
 .../src/lints/base/length_test/length_test.rs      | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index 945546b..dbb34e6 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,9 +1,9 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
-use crate::utils_ast::replace_in_context;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use biome_rowan::{AstNode, AstSeparatedList};
+use anyhow::Context;
+use biome_rowan::AstNode;
 
 pub struct LengthTest;
 
@@ -49,9 +49,6 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    if arguments.iter().count() != 1 {
-        return Ok(None);
-    }
     let mut arg_is_binary_expr = false;
     let mut operator_text: String = "".to_string();
     let mut lhs: String = "".to_string();
@@ -61,7 +58,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = unwrap_or_return_none!(value);
+                let value = value.context("Found named argument without any value")?;
                 if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
@@ -90,10 +87,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             LengthTest,
             range,
             Fix {
-                content: replace_in_context(
-                    ast.syntax(),
-                    format!("length({lhs}) {operator_text} {rhs}"),
-                ),
+                content: format!("length({lhs}) {operator_text} {rhs}"),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From d49fd18cc48d27a3ed2c4f357d4e1c8d9ee81a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 31/44] fix: only fix calls of length() that have one argument

`length(x == 1, y)`, `length(x = )` and `length(x == 1)^2` were changed into
something else or made the file impossible to check.
---
 crates/jarl-core/src/analyze/call.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/analyze/call.rs b/crates/jarl-core/src/analyze/call.rs
index 1544332..ec03d35 100644
--- a/crates/jarl-core/src/analyze/call.rs
+++ b/crates/jarl-core/src/analyze/call.rs
@@ -1,8 +1,9 @@
 use crate::checker::Checker;
 use crate::rule_set::Rule;
 use crate::utils::is_piped;
+use crate::utils_ast::replace_in_context;
 use air_r_syntax::RCall;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 use crate::lints::base::all_equal::all_equal::all_equal;
 use crate::lints::base::any_duplicated::any_duplicated::any_duplicated;
@@ -97,8 +98,12 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
     if checker.is_rule_enabled(Rule::LengthLevels) {
         checker.report_diagnostic(length_levels(r_expr)?);
     }
-    if checker.is_rule_enabled(Rule::LengthTest) {
-        checker.report_diagnostic(length_test(r_expr)?);
+    if checker.is_rule_enabled(Rule::LengthTest) && has_single_value(r_expr) {
+        checker.report_diagnostic(length_test(r_expr)?.map(|mut x| {
+            // The comparison takes the place of a call.
+            x.fix.content = replace_in_context(r_expr.syntax(), x.fix.content);
+            x
+        }));
     }
     if checker.is_rule_enabled(Rule::Lengths) {
         checker.report_diagnostic(lengths(r_expr)?);
@@ -148,3 +153,15 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
 
     Ok(())
 }
+
+/// Whether the call has one argument, which isn't an empty one like `f(x = )`.
+fn has_single_value(ast: &RCall) -> bool {
+    let Ok(arguments) = ast.arguments() else {
+        return false;
+    };
+    let mut arguments = arguments.items().iter();
+    let has_value = arguments
+        .next()
+        .is_some_and(|x| x.is_ok_and(|x| x.value().is_some()));
+    has_value && arguments.next().is_none()
+}
-- 
2.43.0


From 8e37a781441ef15224fdb41aaca75e2b4068b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 32/44] fix: count the arguments of sprintf() as R does

Named arguments, `...`, `*2$` and `% %` were miscounted or misread.
---
 .../src/lints/base/sprintf/sprintf.rs         | 77 +++++++++++--------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index ff2a5ef..581d1fe 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -1,7 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    get_arg_by_name_then_position, get_function_name, get_unnamed_args, node_contains_comments,
-};
+use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -113,12 +111,16 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(Some(diagnostic));
     }
 
-    let dots = get_unnamed_args(&args);
-    let len_dots = if fmt.name_clause().is_some() {
-        dots.len()
-    } else {
-        dots.len() - 1
-    };
+    // All other arguments go to `...`, whatever their name.
+    let len_dots = args.iter().count() - 1;
+    // `...` stands for any number of arguments.
+    let has_dots = args
+        .iter()
+        .flatten()
+        .any(|arg| matches!(arg.value(), Some(AnyRExpression::RDots(_))));
+    if has_dots {
+        return Ok(None);
+    }
 
     // If any specifier uses positional references, use max position
     // Otherwise, sum up all arguments consumed (including * for width/precision)
@@ -171,6 +173,20 @@ struct SprintfParseResult {
     output_string: String,
 }
 
+// Parse a reference to an argument, e.g. "1$", and return its position and the
+// index behind it.
+fn parse_position(chars: &[char], start: usize) -> Option<(usize, usize)> {
+    let digits: String = chars[start..]
+        .iter()
+        .take_while(|c| c.is_ascii_digit())
+        .collect();
+    let end = start + digits.len();
+    if chars.get(end) != Some(&'$') {
+        return None;
+    }
+    Some((digits.parse().ok()?, end + 1))
+}
+
 // Parse sprintf format string in one pass
 // Handles:
 // - %% (literal %)
@@ -192,6 +208,13 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
             let percent_pos = i;
             i += 1;
 
+            // Check for %% (literal %)
+            if i < chars.len() && chars[i] == '%' {
+                output_string.push('%');
+                i += 1;
+                continue;
+            }
+
             // Skip whitespace
             while i < chars.len() && chars[i].is_whitespace() {
                 i += 1;
@@ -203,30 +226,13 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
                 continue;
             }
 
-            // Check for %% (literal %)
-            if chars[i] == '%' {
-                output_string.push('%');
-                i += 1;
-                continue;
-            }
-
             let mut args_consumed = 1; // At least 1 for the value itself
 
             // Parse optional position (e.g., "1$" in "%1$s")
-            let start = i;
-            while i < chars.len() && chars[i].is_ascii_digit() {
-                i += 1;
-            }
-            if i < chars.len() && chars[i] == '$' {
-                if let Ok(pos) = chars[start..i].iter().collect::<String>().parse::<usize>() {
-                    has_positional = true;
-                    if pos > max_position {
-                        max_position = pos;
-                    }
-                    i += 1; // Skip the '$'
-                }
-            } else {
-                i = start; // Reset, wasn't a position specifier
+            if let Some((pos, end)) = parse_position(&chars, i) {
+                has_positional = true;
+                max_position = max_position.max(pos);
+                i = end;
             }
 
             // Skip flags (-, +, space, 0, #)
@@ -244,6 +250,12 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
             if i < chars.len() && chars[i] == '*' {
                 args_consumed += 1; // * consumes an argument
                 i += 1;
+                // or names the one it takes, e.g. "*2$"
+                if let Some((pos, end)) = parse_position(&chars, i) {
+                    has_positional = true;
+                    max_position = max_position.max(pos);
+                    i = end;
+                }
             } else {
                 while i < chars.len() && chars[i].is_ascii_digit() {
                     i += 1;
@@ -256,6 +268,11 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
                 if i < chars.len() && chars[i] == '*' {
                     args_consumed += 1; // .* consumes an argument
                     i += 1;
+                    if let Some((pos, end)) = parse_position(&chars, i) {
+                        has_positional = true;
+                        max_position = max_position.max(pos);
+                        i = end;
+                    }
                 } else {
                     while i < chars.len() && chars[i].is_ascii_digit() {
                         i += 1;
-- 
2.43.0


From cc12517ca1aa8fdddaa241931662b47938119029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:49 +0000
Subject: [PATCH 33/44] fix: only report regular expressions that can be fixed
 strings

`fixed = TRUE` would change calls with `ignore.case`, with an empty pattern or
with backslashes in the replacement.
---
 .../src/lints/base/fixed_regex/fixed_regex.rs | 78 +++++++++++--------
 crates/jarl-core/src/utils.rs                 | 12 +++
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index 8e4e186..13536e5 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -1,6 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::drop_arg_by_name_or_position;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{get_arg_by_formals, get_function_name, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -53,15 +52,25 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let fn_name = get_function_name(function);
     let args = ast.arguments()?.items();
 
-    // Determine the position of the 'fixed' argument based on the function
-    let fixed_position = match fn_name.as_str() {
-        "grep" | "gsub" | "sub" => 6,
-        "regexpr" | "gregexpr" | "regexec" | "grepl" => 5,
+    // Determine the positions of the arguments based on the function
+    let formals: &[&str] = match fn_name.as_str() {
+        "grep" => &["pattern", "x", "ignore.case", "perl", "value", "fixed"],
+        "gsub" | "sub" => &[
+            "pattern",
+            "replacement",
+            "x",
+            "ignore.case",
+            "perl",
+            "fixed",
+        ],
+        "regexpr" | "gregexpr" | "regexec" => &["pattern", "text", "ignore.case", "perl", "fixed"],
+        "grepl" => &["pattern", "x", "ignore.case", "perl", "fixed"],
         _ => return Ok(None),
     };
 
     // Check if fixed is already set to TRUE
-    if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
+    let fixed_arg = get_arg_by_formals(&args, formals, "fixed");
+    if let Some(fixed_arg) = &fixed_arg
         && let Some(value) = fixed_arg.value()
         && value.syntax().text_trimmed() != "FALSE"
     {
@@ -70,22 +79,16 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Check if ignore.case is set to TRUE (implies regex interpretation)
-    let ignore_case_position = match fn_name.as_str() {
-        "gsub" | "sub" => 4,
-        "regexpr" | "gregexpr" | "regexec" | "grep" | "grepl" => 3,
-        _ => return Ok(None),
-    };
-    if let Some(ignore_case_arg) =
-        get_arg_by_name_then_position(&args, "ignore.case", ignore_case_position)
+    if let Some(ignore_case_arg) = get_arg_by_formals(&args, formals, "ignore.case")
         && let Some(value) = ignore_case_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+        && value.syntax().text_trimmed() != "FALSE"
     {
-        // ignore.case = TRUE implies regex interpretation is needed
+        // ignore.case = TRUE (or what might be) implies regex interpretation is needed
         return Ok(None);
     }
 
     // Get the pattern argument (first argument for all functions)
-    let pattern_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "pattern", 1));
+    let pattern_arg = unwrap_or_return_none!(get_arg_by_formals(&args, formals, "pattern"));
     let pattern_value = unwrap_or_return_none!(pattern_arg.value());
 
     // Check if the pattern is a string literal
@@ -101,26 +104,33 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    if fn_name == "sub" || fn_name == "gsub" {
+        // They don't accept `""` as a fixed pattern
+        if pattern_string.len() == 2 {
+            return Ok(None);
+        }
+        // and don't interpret backslashes in `replacement`, e.g. in "\\U\\0",
+        // if the pattern is fixed.
+        if let Some(replacement) = get_arg_by_formals(&args, formals, "replacement")
+            && let Some(value) = replacement.value()
+            && let Some(value) = value.as_any_r_value()
+            && value.to_trimmed_string().contains('\\')
+        {
+            return Ok(None);
+        }
+    }
+
     // Pattern is fixed but fixed = TRUE is not set
     // Build the fix by adding fixed = TRUE to the arguments or changing the value
     // of fixed = FALSE.
-    let args_text = if let Some(fixed_arg) =
-        get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "FALSE"
-    {
-        unwrap_or_return_none!(drop_arg_by_name_or_position(&args, "fixed", fixed_position))
-            .into_iter()
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    } else {
-        args.into_iter()
-            .filter_map(|arg| arg.ok())
-            .map(|arg| arg.syntax().text_trimmed().to_string())
-            .collect::<Vec<_>>()
-            .join(", ")
-    };
+    let dropped = fixed_arg.map(|arg| arg.syntax().text_range());
+    let args_text = args
+        .into_iter()
+        .filter_map(|arg| arg.ok())
+        .filter(|arg| Some(arg.syntax().text_range()) != dropped)
+        .map(|arg| arg.syntax().text_trimmed().to_string())
+        .collect::<Vec<_>>()
+        .join(", ");
 
     let fixed_content = format!("{}({}, fixed = TRUE)", fn_name, args_text);
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 96ba6fa..5688246 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -153,6 +153,18 @@ pub fn get_arg_by_name_then_position(
     }
 }
 
+/// Takes a list of arguments and extracts the one for the parameter `name` of a
+/// function whose parameters are `formals`: the one that is named `name`, or
+/// the unnamed one that is left for it by the named ones.
+pub fn get_arg_by_formals(args: &RArgumentList, formals: &[&str], name: &str) -> Option<RArgument> {
+    let before = formals
+        .iter()
+        .take_while(|formal| **formal != name)
+        .filter(|formal| get_arg_by_name(args, formal).is_none())
+        .count();
+    get_arg_by_name_then_position(args, name, before + 1)
+}
+
 /// Takes a list of arguments and removes the one that is named `name` or the
 /// unnamed one in position `pos` if no argument was found in the first step,
 /// see `get_arg_by_name_then_position()`.
-- 
2.43.0


From 0d2a4595b8316418815b93ff7ca8cd9a9ca501e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 34/44] fix: check files with conditions like 0x10 and 1e3L

---
 .../base/if_always_true/if_always_true.rs     | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
index 8c9ab0b..719d94d 100644
--- a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
+++ b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
@@ -69,6 +69,17 @@ pub fn if_always_true(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>>
     Ok(Some(diagnostic))
 }
 
+/// Whether a number is different from 0, `None` if it cannot be read.
+fn is_nonzero(text: &str) -> Option<bool> {
+    if let Some(hex) = text.strip_prefix("0x").or_else(|| text.strip_prefix("0X")) {
+        // In hexadecimal numbers, an exponent is behind "p".
+        let mantissa = hex.split(['p', 'P']).next()?;
+        return Some(mantissa.chars().any(|c| c != '0' && c != '.'));
+    }
+    let value: f64 = text.parse().ok()?;
+    (!value.is_nan()).then_some(value != 0.0)
+}
+
 fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<bool>> {
     match expr {
         // Catch simple if (TRUE) ... or if (FALSE) ...
@@ -83,22 +94,11 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
             if let Some(int) = value.as_r_integer_value() {
                 let token = int.value_token()?;
                 let text = token.text_trimmed();
-                let normalized = text.strip_suffix('L').unwrap_or(text);
-                let value: i64 = normalized.parse()?;
-                return Ok(Some(value != 0));
+                return Ok(is_nonzero(text.strip_suffix('L').unwrap_or(text)));
             }
             if let Some(double) = value.as_r_double_value() {
                 let token = double.value_token()?;
-                let text = token.text_trimmed();
-                let value: f64 = if text.starts_with('.') {
-                    format!("0{text}").parse()?
-                } else {
-                    text.parse()?
-                };
-                if value.is_nan() {
-                    return Ok(None);
-                }
-                return Ok(Some(value != 0.0));
+                return Ok(is_nonzero(token.text_trimmed()));
             }
             Ok(None)
         }
-- 
2.43.0


From 549216a50cfb93a57ca972caf532dfe1b7ba207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 35/44] fix: compare the names of arguments without their
 quotes only

Callees like `NULL()` made the file impossible to check.
---
 .../duplicated_arguments/duplicated_arguments.rs  | 15 +++------------
 crates/jarl-core/src/utils.rs                     |  8 ++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..7e85ecd 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -2,8 +2,8 @@ use std::collections::{HashMap, HashSet};
 
 use crate::checker::Checker;
 use crate::diagnostic::*;
+use crate::utils::unquote_name;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +50,7 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
@@ -74,12 +70,7 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
                 && let Ok(name) = name_clause.name()
             {
                 let name = name.to_trimmed_string();
-                let name_no_quotes = name.replace(&['\'', '"', '`'][..], "");
-                if name_no_quotes.chars().count() == 0 {
-                    Some(name)
-                } else {
-                    Some(name_no_quotes)
-                }
+                Some(unquote_name(&name).to_string())
             } else {
                 None
             }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 5688246..6ad1807 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -184,6 +184,14 @@ pub fn drop_arg_by_name_or_position(
     )
 }
 
+/// The name itself of something that may be written between backticks or quotes.
+pub fn unquote_name(name: &str) -> &str {
+    ['`', '"', '\'']
+        .into_iter()
+        .find_map(|quote| name.strip_prefix(quote)?.strip_suffix(quote))
+        .unwrap_or(name)
+}
+
 /// Return the function name of an expression. This takes AnyRExpression because
 /// multiple cases are possible:
 /// - fun() -> "fun"
-- 
2.43.0


From 4f18d58e89d2b714b37158a6d8730c4ef23b91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 36/44] fix: recognise loop variables between backticks

---
 .../lints/base/for_loop_dup_index/for_loop_dup_index.rs    | 4 +++-
 .../src/lints/base/for_loop_index/for_loop_index.rs        | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/for_loop_dup_index/for_loop_dup_index.rs b/crates/jarl-core/src/lints/base/for_loop_dup_index/for_loop_dup_index.rs
index 5dc63d0..3e80b42 100644
--- a/crates/jarl-core/src/lints/base/for_loop_dup_index/for_loop_dup_index.rs
+++ b/crates/jarl-core/src/lints/base/for_loop_dup_index/for_loop_dup_index.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::utils::unquote_name;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -47,6 +48,7 @@ impl Violation for ForLoopDupIndex {
 
 pub fn for_loop_dup_index(ast: &RForStatement) -> anyhow::Result<Option<Diagnostic>> {
     let index = ast.variable()?.to_trimmed_string();
+    let index = unquote_name(&index);
 
     let has_duplicate_in_ancestor = ast
         .syntax()
@@ -57,7 +59,7 @@ pub fn for_loop_dup_index(ast: &RForStatement) -> anyhow::Result<Option<Diagnost
         .any(|ancestor_for| {
             ancestor_for
                 .variable()
-                .map(|v| v.to_trimmed_string() == index)
+                .map(|v| unquote_name(&v.to_trimmed_string()) == index)
                 .unwrap_or(false)
         });
 
diff --git a/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs b/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
index acf81f1..59d7f76 100644
--- a/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
+++ b/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::utils::unquote_name;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, Text};
 
@@ -45,7 +46,7 @@ pub fn for_loop_index(ast: &RForStatement) -> anyhow::Result<Option<Diagnostic>>
     let variable_text = variable?.to_trimmed_text();
     let sequence = sequence?;
 
-    if contains_identifier(&sequence, &variable_text)? {
+    if contains_identifier(&sequence, unquote_name(&variable_text))? {
         let range_start = ast.variable()?.range().start();
         let range_end = ast.sequence()?.range().end();
         let range = TextRange::new(range_start, range_end);
@@ -58,7 +59,7 @@ pub fn for_loop_index(ast: &RForStatement) -> anyhow::Result<Option<Diagnostic>>
 
 fn contains_identifier(expr: &AnyRExpression, target: &str) -> anyhow::Result<bool> {
     let out = match expr {
-        AnyRExpression::RIdentifier(ident) => ident.to_trimmed_text() == target,
+        AnyRExpression::RIdentifier(ident) => unquote_name(&ident.to_trimmed_text()) == target,
         AnyRExpression::RCall(call) => {
             let arguments = call.arguments()?.items();
 
@@ -73,7 +74,7 @@ fn contains_identifier(expr: &AnyRExpression, target: &str) -> anyhow::Result<bo
                 })
                 .collect();
 
-            if arg_names.iter().any(|x| *x == target) {
+            if arg_names.iter().any(|x| unquote_name(x) == target) {
                 return Ok(true);
             }
 
-- 
2.43.0


From 239be29d0b032ab2c8c3713d86f2692b665c9b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 37/44] fix: report configuration files that cannot be read
 instead of panicking

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From 7b143ed5edd6b8befd28c20bf20e37957016f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 38/44] fix: report all code after if (TRUE) that ends without
 else as unreachable

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs | 4 +++-
 .../jarl-core/src/lints/base/unreachable_code/cfg/graph.rs   | 3 +++
 .../src/lints/base/unreachable_code/cfg/reachability.rs      | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5cc506..30d3385 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -344,6 +344,7 @@ impl<'a> CfgBuilder<'a> {
                     // but not connecting it from current
                     if let Some(else_b) = self.cfg.block_mut(else_block) {
                         else_b.predecessors.push(current);
+                        else_b.is_dead_branch = true;
                     }
                 }
                 Some(false) => {
@@ -352,6 +353,7 @@ impl<'a> CfgBuilder<'a> {
                     // Mark then_block as unreachable
                     if let Some(then_b) = self.cfg.block_mut(then_block) {
                         then_b.predecessors.push(current);
+                        then_b.is_dead_branch = true;
                     }
                 }
                 None => {
@@ -427,7 +429,7 @@ impl<'a> CfgBuilder<'a> {
                     }
                 }
             }
-        } else {
+        } else if constant_value != Some(true) {
             // No else branch, just connect to after_if
             if let Some(b) = self.cfg.block_mut(else_block) {
                 b.terminator = Terminator::Goto;
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
index 60d5660..589ebf8 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
@@ -25,6 +25,8 @@ pub struct BasicBlock {
     pub terminator: Terminator,
     /// Text range covering this block (for diagnostics)
     pub range: Option<TextRange>,
+    /// Whether this is the branch that a constant condition never takes
+    pub is_dead_branch: bool,
 }
 
 impl BasicBlock {
@@ -36,6 +38,7 @@ impl BasicBlock {
             predecessors: Vec::new(),
             terminator: Terminator::None,
             range: None,
+            is_dead_branch: false,
         }
     }
 }
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
index 97bd3c1..74472e4 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
@@ -145,6 +145,11 @@ fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> Un
 
     // Check the block's predecessors to find what terminator caused unreachability
     if let Some(block) = cfg.block(block_id) {
+        // A dead branch is dead whatever the other branch does
+        if block.is_dead_branch {
+            return UnreachableReason::DeadBranch;
+        }
+
         // Priority 1: Check for terminators (return/break/next) - these take priority
         for &pred_id in &block.predecessors {
             if let Some(pred_block) = cfg.block(pred_id) {
-- 
2.43.0


From 5f727e8f32fcf633745590d6d2b0b8aa330e600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 39/44] fix: a bare return does not end the function

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index 30d3385..e9dc494 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -239,10 +239,6 @@ impl<'a> CfgBuilder<'a> {
                 self.build_next(current, stmt.clone());
                 current
             }
-            RSyntaxKind::R_RETURN_EXPRESSION => {
-                self.build_return(current, stmt.clone());
-                current
-            }
             RSyntaxKind::R_IF_STATEMENT => {
                 if let Some(if_stmt) = RIfStatement::cast_ref(stmt) {
                     self.build_if_statement(&if_stmt, current, exit)
-- 
2.43.0


From ea9c8a3b5f565b913fdfed2ad58a4e8ce1958683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 40/44] fix: tell bodies and conditions apart in
 implicit_assignment

---
 .../implicit_assignment.rs                    | 79 +++++--------------
 1 file changed, 18 insertions(+), 61 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
index 78b248e..fdb90e0 100644
--- a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
+++ b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
@@ -105,69 +105,26 @@ pub fn implicit_assignment(
     // while (TRUE) x <- 1
     // ```
     // i.e., we want to skip cases that are in the body of RIfStatement /
-    // RForStatement / RWhileStatement.
+    // RForStatement / RWhileStatement, however deeply these are nested.
+    let mut ancestor_is_if = false;
+    let mut ancestor_is_while = false;
+    let mut ancestor_is_for = false;
 
-    let ancestor_is_if = {
-        let mut result = false;
-
-        let in_if_body = ast.parent_is_if_body();
-        let in_else_body = ast.parent_is_else_body();
-
-        if !in_if_body && !in_else_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RIfStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-    let ancestor_is_while = {
-        let mut result = false;
-
-        let in_while_body = ast.parent_is_while_body();
-
-        if !in_while_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RWhileStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
+    let mut child = ast.syntax().clone();
+    while let Some(parent) = child.parent() {
+        match parent.kind() {
+            // Found braced expressions first, so skip
+            RSyntaxKind::R_BRACED_EXPRESSIONS => break,
+            // IF_KW - L_PAREN - [condition] - R_PAREN - [consequence]
+            RSyntaxKind::R_IF_STATEMENT if child.index() == 2 => ancestor_is_if = true,
+            // WHILE_KW - L_PAREN - [condition] - R_PAREN - [body]
+            RSyntaxKind::R_WHILE_STATEMENT if child.index() == 2 => ancestor_is_while = true,
+            // FOR_KW - L_PAREN - [variable] - IN_KW - [sequence] - R_PAREN - [body]
+            RSyntaxKind::R_FOR_STATEMENT if child.index() == 4 => ancestor_is_for = true,
+            _ => {}
         }
-        result
-    };
-    let ancestor_is_for = {
-        let mut result = false;
-
-        let in_for_body = ast.parent_is_for_body();
-
-        if !in_for_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RForStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
+        child = parent;
+    }
 
     if !ancestor_is_if && !ancestor_is_while && !ancestor_is_arg && !ancestor_is_for {
         return Ok(None);
-- 
2.43.0


From c173835e2e586228a78a27cd6a207e3759c1b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 41/44] fix: keep the parentheses around assignments in
 expect_not

---
 .../src/lints/testthat/expect_not/expect_not.rs       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
index f4e646e..d822d12 100644
--- a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
@@ -82,8 +82,11 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     // Strip outer parentheses if present: !(x && y) -> x && y
+    // (without them, `x = y` would be a named argument).
     let inner_text = if let Some(paren_expr) = argument.as_r_parenthesized_expression() {
-        if let Ok(body) = paren_expr.body() {
+        if let Ok(body) = paren_expr.body()
+            && !is_equal_assignment(&body)
+        {
             body.to_trimmed_text()
         } else {
             argument.to_trimmed_text()
@@ -123,3 +126,9 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     Ok(Some(diagnostic))
 }
+
+fn is_equal_assignment(expr: &AnyRExpression) -> bool {
+    expr.as_r_binary_expression()
+        .and_then(|expr| expr.operator().ok())
+        .is_some_and(|operator| operator.kind() == RSyntaxKind::EQUAL)
+}
-- 
2.43.0


From 59ff443b2e0821e5b4d2be42a4c1b60cb20401bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 42/44] fix: match the start and end of suppressed regions in
 source order

---
 crates/jarl-core/src/suppression.rs | 73 +++++++++++++++--------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 2e0c810..3fcc343 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -122,10 +122,9 @@ pub struct ChunkSuppression {
 
 /// Intermediate state used during single-pass comment collection
 struct CommentCollector {
-    /// Track start positions per (rule, nesting_level) for building skip regions
-    /// Key: (rule, nesting_level), Value: ranges of the start comments that are
-    /// still open, innermost last
-    starts: HashMap<(Rule, usize), Vec<TextRange>>,
+    /// Start (`true`) and end (`false`) comments with their nesting level, for
+    /// building skip regions
+    boundaries: Vec<(TextRange, bool, Rule, usize)>,
     /// Completed skip regions
     skip_regions: Vec<SkipRegion>,
     /// Rules suppressed at file level
@@ -157,7 +156,7 @@ struct CommentCollector {
 impl CommentCollector {
     fn new() -> Self {
         Self {
-            starts: HashMap::new(),
+            boundaries: Vec::new(),
             skip_regions: Vec::new(),
             file_suppressions: Vec::new(),
             chunk_suppressions: Vec::new(),
@@ -173,6 +172,35 @@ impl CommentCollector {
             has_any_valid_directive: false,
         }
     }
+
+    /// Build skip regions from the start and end comments of the same rule at
+    /// the same nesting level. Comments are not collected in the order in which
+    /// they are written, e.g. those below a call come before those inside it.
+    fn match_boundaries(&mut self) {
+        self.boundaries.sort_by_key(|(range, ..)| range.start());
+
+        // Start comments that are still open, innermost last
+        let mut starts: HashMap<(Rule, usize), Vec<TextRange>> = HashMap::new();
+        for (range, is_start, rule, nesting_level) in self.boundaries.drain(..) {
+            let open = starts.entry((rule, nesting_level)).or_default();
+            if is_start {
+                open.push(range);
+            } else if let Some(start_range) = open.pop() {
+                self.skip_regions.push(SkipRegion {
+                    range: TextRange::new(start_range.start(), range.end()),
+                    rule,
+                    comment_range: start_range,
+                });
+            } else {
+                // No matching start at this nesting level
+                self.unmatched_end_suppressions.push(range);
+            }
+        }
+
+        // Any remaining starts without matching ends are unmatched
+        self.unmatched_start_suppressions
+            .extend(starts.into_values().flatten());
+    }
 }
 
 /// Tracks which nodes should skip linting based on comments
@@ -246,12 +274,7 @@ impl SuppressionManager {
         let mut collector = CommentCollector::new();
         Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
 
-        // Any remaining starts without matching ends are unmatched
-        for (_, comment_ranges) in collector.starts.drain() {
-            collector
-                .unmatched_start_suppressions
-                .extend(comment_ranges);
-        }
+        collector.match_boundaries();
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
             || !collector.file_suppressions.is_empty()
@@ -451,32 +474,14 @@ impl SuppressionManager {
                 collector.has_any_valid_directive = true;
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
-                        // Store with nesting level for proper matching
                         collector
-                            .starts
-                            .entry((rule, nesting_level))
-                            .or_default()
-                            .push(comment_range);
+                            .boundaries
+                            .push((comment_range, true, rule, nesting_level));
                     }
                     LintDirective::IgnoreEnd(rule) => {
-                        // Only match with start at the same nesting level
-                        if let Some(start_comment_range) = collector
-                            .starts
-                            .get_mut(&(rule, nesting_level))
-                            .and_then(|open| open.pop())
-                        {
-                            collector.skip_regions.push(SkipRegion {
-                                range: TextRange::new(
-                                    start_comment_range.start(),
-                                    comment_range.end(),
-                                ),
-                                rule,
-                                comment_range: start_comment_range,
-                            });
-                        } else {
-                            // No matching start at this nesting level
-                            collector.unmatched_end_suppressions.push(comment_range);
-                        }
+                        collector
+                            .boundaries
+                            .push((comment_range, false, rule, nesting_level));
                     }
                     LintDirective::IgnoreChunk(_rule) => {
                         // The only valid form of jarl-ignore-chunk is the YAML array:
-- 
2.43.0


From 249894c0f8a8f7ddfe730e85772a2b0d5562f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:20 +0000
Subject: [PATCH 43/44] fix: match the arguments of substr() and substring() by
 name

---
 .../base/string_boundary/string_boundary.rs   | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..ad34960 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_arg_by_formals, get_function_name, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -62,22 +62,19 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
     }
 
     // Get arguments
-    let arguments = call.arguments()?;
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
+    let args = call.arguments()?.items();
 
-    // Need at least 3 arguments (x, start, end)
-    if args.len() < 3 {
-        return Ok(None);
-    }
+    let formals = if func_name == "substr" {
+        ["x", "start", "stop"]
+    } else {
+        ["text", "first", "last"]
+    };
+    let get_value = |name| get_arg_by_formals(&args, &formals, name).and_then(|arg| arg.value());
 
     // Extract the expression values from arguments
-    let x_arg = unwrap_or_return_none!(args[0].value());
-    let start_arg = unwrap_or_return_none!(args[1].value());
-    let end_arg = unwrap_or_return_none!(args[2].value());
+    let x_arg = unwrap_or_return_none!(get_value(formals[0]));
+    let start_arg = unwrap_or_return_none!(get_value(formals[1]));
+    let end_arg = unwrap_or_return_none!(get_value(formals[2]));
 
     // Get the string being compared
     let string_text = string_expr.syntax().text_trimmed();
-- 
2.43.0


From d4bd081a5c0ceffb0ffe6f97ec4a47e76b788ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:20 +0000
Subject: [PATCH 44/44] fix: find the x of sample() by its name

---
 .../src/lints/base/sample_int/sample_int.rs        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index 38a23df..a735734 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
-    node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name, get_arg_by_name_then_position,
+    get_function_name, node_contains_comments,
 };
 use air_r_syntax::*;
 use biome_rowan::AstNode;
@@ -57,7 +57,13 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let n = get_arg_by_name_then_position(&args, "n", 1);
+    // `x` can be given by name wherever it is among the arguments.
+    let name = if get_arg_by_name(&args, "x").is_some() {
+        "x"
+    } else {
+        "n"
+    };
+    let n = get_arg_by_name_then_position(&args, name, 1);
 
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
@@ -80,7 +86,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     };
 
-    let other_args = drop_arg_by_name_or_position(&args, "n", 1);
+    let other_args = drop_arg_by_name_or_position(&args, name, 1);
     let inner_content = match other_args {
         Some(x) => {
             let out = x
-- 
2.43.0

