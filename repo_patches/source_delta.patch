From f5f30f175ab96d7f4077517916c8f4a1a953c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 01/11] fix: report the line of byte offsets in non-ASCII
 Solidity files

---
 crates/foundry/src/check/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..09aeccd 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -1,21 +1,26 @@
 //! Check module utilities.
 
-/// Converts the start offset of a `Loc` to `(line, col)`. Modified from <https://github.com/foundry-rs/foundry/blob/45b9dccdc8584fb5fbf55eb190a880d4e3b0753f/fmt/src/helpers.rs#L54-L70>
+/// Converts the byte offset `start` to a 1-based `(line, col)`, with columns
+/// counted in characters. Modified from <https://github.com/foundry-rs/foundry/blob/45b9dccdc8584fb5fbf55eb190a880d4e3b0753f/fmt/src/helpers.rs#L54-L70>
 pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
     debug_assert!(content.len() > start);
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    let mut column_counter = 1;
+    for (offset, c) in content.char_indices() {
+        if offset >= start {
+            break;
+        }
         if c == '\n' {
             line_counter += 1;
-        }
-        if offset > start {
-            return (line_counter, offset - start);
+            column_counter = 1;
+        } else {
+            column_counter += 1;
         }
     }
 
-    unreachable!("content.len() > start")
+    (line_counter, column_counter)
 }
 
 /// Returns the line where a byte offset is found.
-- 
2.43.0


From 7bfa57aa9444a6a025c8cb1410ec259b580d7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 02/11] fix: insert missing functions when the preceding one is
 not in the contract

---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..6c85abd 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -238,20 +238,21 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // Not every function of the tree has to be in the contract, e.g. modifiers
+    // might be skipped, so we look for the closest one that is.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => None,
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From 5a35997a095c5ee1677b10f7e0de4863d60be5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 03/11] fix: find the end of contract headers and bodyless
 functions past comments

---
 crates/foundry/src/check/violation.rs | 64 ++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 6c85abd..bdd3ad7 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -251,7 +251,7 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+            |(_, prev_fn_sol)| find_function_end(prev_fn_sol, src.as_ref()),
         )
 }
 
@@ -268,12 +268,66 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
+    // The header might contain comments and base constructor arguments with
+    // braces, so we skip as much of it as we can.
+    let header_end = match (contract_sol.base.last(), &contract_sol.name) {
+        (Some(base), _) => base.loc.end(),
+        (None, Some(name)) => name.loc.end(),
+        (None, None) => contract_sol.loc.start(),
+    };
+    let opening_brace_pos = find_outside_comments(src, header_end, '{')
         .expect("contract should have an opening brace");
 
-    contract_start + opening_brace_pos + 1
+    opening_brace_pos + 1
+}
+
+/// Finds the position right after a function definition, including the
+/// semicolon if it has no body.
+///
+/// # Arguments
+/// * `fn_sol` - Solidity parse tree function definition
+/// * `src` - Full source code string
+///
+/// # Returns
+/// Position immediately after the function definition
+fn find_function_end(fn_sol: &pt::FunctionDefinition, src: &str) -> usize {
+    let end = fn_sol.loc().end();
+    if fn_sol.body.is_some() {
+        return end;
+    }
+
+    find_outside_comments(src, end, ';').map_or(end, |pos| pos + 1)
+}
+
+/// Finds the first occurrence of a character that is not part of a comment.
+///
+/// # Arguments
+/// * `src` - Full source code string
+/// * `start` - Position where the search starts, not inside of a comment
+/// * `needle` - The character to find
+///
+/// # Returns
+/// The position of the character, if any
+fn find_outside_comments(
+    src: &str,
+    start: usize,
+    needle: char,
+) -> Option<usize> {
+    let mut pos = start;
+    while let Some(c) = src[pos..].chars().next() {
+        let rest = &src[pos..];
+        if c == needle {
+            return Some(pos);
+        } else if rest.starts_with("//") {
+            pos += rest.find(['\n', '\r']).unwrap_or(rest.len());
+        } else if rest.starts_with("/*") {
+            pos += rest[2..].find("*/").map_or(rest.len(), |end| end + 4);
+        } else {
+            pos += c.len_utf8();
+        }
+    }
+
+    None
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From a00c23ff3aa3b0faa656f30ab86f765aeb572585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 04/11] fix: rename only the mismatching contract

---
 crates/foundry/src/check/violation.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index bdd3ad7..c5edd07 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -181,10 +181,19 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let Some(old_name) =
+                    find_contract(&ctx.pt).and_then(|contract| contract.name)
+                else {
+                    return ctx;
+                };
+
+                // Only rename the contract, its old name might be a prefix of
+                // other names or appear in comments.
+                let source = format!(
+                    "{}{new_name}{}",
+                    &ctx.src[..old_name.loc.start()],
+                    &ctx.src[old_name.loc.end()..],
                 );
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
-- 
2.43.0


From a367a419666cdf21be65409354e8af6ab0b5c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 05/11] fix: reorder functions without losing, duplicating or
 misplacing code

---
 crates/bulloak/src/check.rs           |  7 +--
 crates/foundry/src/check/violation.rs | 77 ++++++++-------------------
 2 files changed, 22 insertions(+), 62 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..99b4244 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -97,12 +97,7 @@ impl Check {
                         if let Some(contract_hir) =
                             ctx.hir.clone().find_contract()
                         {
-                            ctx = fix_order(
-                                &violations,
-                                &contract_sol,
-                                contract_hir,
-                                ctx,
-                            );
+                            ctx = fix_order(&contract_sol, contract_hir, ctx);
                         }
                     }
                 }
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index c5edd07..c5999ff 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -342,21 +339,17 @@ fn find_outside_comments(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first collects the functions in `contract_sol` that match a function
+///    in `contract_hir`, in the order of the latter. The rest of the functions
+///    are left out, as their correct position is unknown.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
 /// # Arguments
-/// * `violations` - Order discrepancies between Solidity and HIR
 /// * `contract_sol` - Solidity contract to be corrected
 /// * `contract_hir` - HIR contract with correct function order
 /// * `ctx` - Current context with source code and processing data
@@ -368,70 +361,42 @@ fn find_outside_comments(
 /// If the reconstructed Solidity string fails to parse
 #[must_use]
 pub fn fix_order(
-    violations: &[Violation],
     contract_sol: &Box<ContractDefinition>,
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    // 1. Collect the functions that appear in the tree, in the order of the
+    // tree.
     //
     // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
+    let mut seen = HashSet::new();
+    let fns: Vec<&pt::FunctionDefinition> = contract_hir
         .children
         .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
-    }
-
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
+            _ => None,
         })
+        .filter(|(sol_idx, _)| seen.insert(*sol_idx))
+        .map(|(_, f)| f)
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
-        source.push(f);
+        let (start, end) = (f.loc().start(), find_function_end(f, &ctx.src));
+        scratch.replace_range(start..end, &" ".repeat(end - start));
+        source.push(ctx.src[start..end].to_owned());
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From 9fd6174a74e875a436767194392f4bc8bb36585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 06/11] fix: report invalid Solidity names instead of panicking

---
 crates/bulloak/src/check.rs           |  7 +++++--
 crates/foundry/src/check/violation.rs | 30 +++++++++++++++------------
 crates/foundry/src/scaffold/mod.rs    |  5 +++--
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 99b4244..721e6a3 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -103,8 +103,11 @@ impl Check {
                 }
 
                 let sol = ctx.sol.clone();
-                let formatted =
-                    ctx.fmt().expect("should format the emitted solidity code");
+                let src = ctx.src.clone();
+                let formatted = ctx.fmt().unwrap_or_else(|err| {
+                    eprintln!("{}: {err}", "warn".yellow());
+                    src
+                });
                 self.write(&formatted, sol);
 
                 fixed_count += fixable_count;
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index c5999ff..5b9a820 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -168,15 +168,16 @@ impl ViolationKind {
     }
 
     /// Returns a new context with this violation fixed.
-    pub fn fix(&self, mut ctx: Context) -> Context {
+    ///
+    /// The context is returned as is if the result is not valid Solidity, e.g.
+    /// because a name in the tree is not a valid identifier.
+    pub fn fix(&self, ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
                 let pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
                 let source = sol::Formatter::new().emit(pt.clone());
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                update_source(ctx, &source)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
                 let Some(old_name) =
@@ -192,9 +193,7 @@ impl ViolationKind {
                     &ctx.src[..old_name.loc.start()],
                     &ctx.src[old_name.loc.end()..],
                 );
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                update_source(ctx, &source)
             }
             // Assume order violations have been taken care of first.
             ViolationKind::MatchingFunctionMissing(fn_hir, index) => {
@@ -211,18 +210,23 @@ impl ViolationKind {
                     *index,
                     &ctx.src,
                 );
-                ctx.insert_function_at(fn_hir, offset);
-
-                let source = ctx.src.clone();
-                let parsed =
-                    parse(&source).expect("should parse solidity string");
-                ctx.from_parsed(parsed)
+                let mut fixed = ctx.clone();
+                fixed.insert_function_at(fn_hir, offset);
+                update_source(ctx, &fixed.src)
             }
             _ => ctx,
         }
     }
 }
 
+/// Replaces the Solidity source of a context, if the new one is valid.
+fn update_source(ctx: Context, source: &str) -> Context {
+    match parse(source) {
+        Ok(parsed) => ctx.from_parsed(parsed),
+        Err(_) => ctx,
+    }
+}
+
 /// Calculates the insertion offset for a new function in a contract's source
 /// code.
 ///
diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..027015a 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,9 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    let formatted = fmt(&source).map_err(|err| {
+        anyhow::anyhow!("the emitted Solidity code is invalid: {err}")
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From 870514ee4d46043f2c513daa82fd2dda8b0de8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 07/11] fix: report duplicated identifiers in a deterministic
 order

---
 crates/syntax/src/semantics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..99765ac 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -1,5 +1,5 @@
 //! Implementation of the semantic analysis of a bulloak tree.
-use std::{collections::HashMap, fmt, result};
+use std::{collections::BTreeMap, fmt, result};
 
 use thiserror::Error;
 
@@ -97,7 +97,7 @@ pub(crate) struct SemanticAnalyzer<'t> {
     /// span in an error is a valid range into this string.
     text: &'t str,
     /// A map from modifier name to it's locations in the input.
-    identifiers: HashMap<String, Vec<Span>>,
+    identifiers: BTreeMap<String, Vec<Span>>,
 }
 
 impl<'t> SemanticAnalyzer<'t> {
@@ -107,7 +107,7 @@ impl<'t> SemanticAnalyzer<'t> {
         SemanticAnalyzer {
             text,
             errors: Vec::new(),
-            identifiers: HashMap::new(),
+            identifiers: BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 73902260261a79f1080be152327646152d5aee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 08/11] fix: strip the test prefix only once when combining
 trees

---
 crates/foundry/src/hir/combiner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..f378c5b 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -233,7 +233,7 @@ fn update_children(
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
     let capitalized_fn_name = upper_first_letter(prefix);
-    let test_suffix = test_name.trim_start_matches("test_");
+    let test_suffix = test_name.strip_prefix("test_").unwrap_or(test_name);
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
 
-- 
2.43.0


From bd92f9b5f0773d002a125ceb729a6de74f6d81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 09/11] fix: tell semantic errors apart from Solidity parsing
 errors

---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 5b9a820..63a8c4a 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -123,7 +123,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From 8fa90be7e892957fe59feed5ed6d920aed3c25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 10/11] fix: report files that could not be written by scaffold

---
 crates/bulloak/src/scaffold.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..08b04c4 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,11 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)?;
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From 5fe7cd995c2c8b0df3270ffa8894c12983ff3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 11/11] fix: accept paths that are not valid UTF-8

---
 crates/bulloak/src/cli.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/bulloak/src/cli.rs b/crates/bulloak/src/cli.rs
index 4314db6..0af09ae 100644
--- a/crates/bulloak/src/cli.rs
+++ b/crates/bulloak/src/cli.rs
@@ -1,6 +1,5 @@
 //! `bulloak`'s CLI config.
 use clap::{Parser, Subcommand};
-use figment::{providers::Serialized, Figment};
 use serde::{Deserialize, Serialize};
 
 /// `bulloak`'s configuration.
@@ -50,8 +49,7 @@ impl From<&Cli> for bulloak_foundry::config::Config {
 
 /// Main entrypoint of `bulloak`'s execution.
 pub(crate) fn run() -> anyhow::Result<()> {
-    let config: Cli =
-        Figment::new().merge(Serialized::defaults(Cli::parse())).extract()?;
+    let config = Cli::parse();
 
     match &config.command {
         Commands::Scaffold(command) => command.run(&config),
-- 
2.43.0

