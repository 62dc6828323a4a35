From 7b2a3200663b9c3bcbcc03543cdc61a333d45759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 01/24] fix: keep '::' inside a parametrization suffix out of
 the loadscope key

---
 src/scheduler.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3307f68..5766982 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -206,12 +206,14 @@ impl Scheduler for NoScheduler {
 fn extract_scope(test_path: &str) -> String {
     // Extract module/class scope from test path
     // Format: path/to/file.py::TestClass::test_method or path/to/file.py::test_function
-    let parts: Vec<&str> = test_path.split("::").collect();
-    match parts.len() {
-        0 => test_path.to_string(), // Shouldn't happen, but handle gracefully
-        1 => parts[0].to_string(),  // Just file path
-        2 => parts[0].to_string(),  // File::function
-        _ => format!("{}::{}", parts[0], parts[1]), // File::Class::method
+    let Some((file, name)) = test_path.split_once("::") else {
+        return test_path.to_string(); // Just file path
+    };
+    // A "::" inside a parametrization suffix (`test_x[a::b]`) is not a separator
+    let name = name.split('[').next().unwrap_or(name);
+    match name.split_once("::") {
+        Some((class, _)) => format!("{file}::{class}"), // File::Class::method
+        None => file.to_string(),                       // File::function
     }
 }
 
-- 
2.43.0


From 7cd233539ae71117a00b28eecca96ab537c1d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 02/24] fix: run the tests with one worker when zero workers
 are requested

---
 src/runner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runner.rs b/src/runner.rs
index 454a5fd..857fe40 100644
--- a/src/runner.rs
+++ b/src/runner.rs
@@ -62,6 +62,10 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         }
     };
 
+    // Like the native runner, zero requested workers still means one worker:
+    // reporting success without running the tests is never right.
+    let worker_count = config.worker_count.max(1);
+
     if config.use_subprojects {
         let test_groups = subproject::group_tests_by_subproject(config.rootpath, &test_nodes);
 
@@ -76,7 +80,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
             };
 
             let scheduler = create_scheduler(distribution_mode.clone());
-            let test_batches = scheduler.distribute_tests(adjusted_tests, config.worker_count);
+            let test_batches = scheduler.distribute_tests(adjusted_tests, worker_count);
 
             for batch in test_batches {
                 if !batch.is_empty() {
@@ -119,7 +123,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         overall_exit_code
     } else {
         let scheduler = create_scheduler(distribution_mode);
-        let test_batches = scheduler.distribute_tests(test_nodes, config.worker_count);
+        let test_batches = scheduler.distribute_tests(test_nodes, worker_count);
 
         if test_batches.is_empty() {
             log::info!("No test batches to execute.");
-- 
2.43.0


From b40a79b536f1983a5051392483c5a99f6fbda691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 03/24] fix: fail the native run when a worker report is
 missing or unreadable

---
 src/native_runner.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4d0f615..72f7e19 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -318,20 +318,18 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
         }
     }
 
-    for error in &worker_errors {
-        eprintln!("{}", error);
-    }
-
     let mut all_results = Vec::new();
-    for output_file in &output_files {
-        if output_file.exists() {
-            match parse_results_file(output_file) {
-                Ok(results) => all_results.push(results),
-                Err(e) => eprintln!("Warning: {}", e),
-            }
+    for (i, output_file) in output_files.iter().enumerate() {
+        match parse_results_file(output_file) {
+            Ok(results) => all_results.push(results),
+            Err(e) => worker_errors.push(format!("Worker {}: {}", i, e)),
         }
     }
 
+    for error in &worker_errors {
+        eprintln!("{}", error);
+    }
+
     let aggregated = aggregate_results(all_results);
     print_summary(&aggregated);
 
-- 
2.43.0


From d66011f074e56a64321db6ee3d7688b9a30ac64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 04/24] fix: keep every test grouped under the root even when
 its path lies below a subproject

---
 src/subproject.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5b76531..926bba8 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -17,15 +17,9 @@ pub fn group_tests_by_subproject(
     test_nodes: &[String],
 ) -> HashMap<PathBuf, Vec<String>> {
     let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
-    let mut subproject_roots: HashSet<PathBuf> = HashSet::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-        let is_subproject = subproject_root != *rootpath;
-
-        if is_subproject {
-            subproject_roots.insert(subproject_root.clone());
-        }
 
         groups
             .entry(subproject_root)
@@ -33,17 +27,6 @@ pub fn group_tests_by_subproject(
             .push(test_node.clone());
     }
 
-    if let Some(root_tests) = groups.get_mut(rootpath) {
-        root_tests.retain(|test_node| {
-            let (file_path, _) = split_test_node(test_node);
-            let test_path = rootpath.join(file_path);
-
-            !subproject_roots
-                .iter()
-                .any(|subproject| test_path.starts_with(subproject))
-        });
-    }
-
     groups
 }
 
-- 
2.43.0


From 79878abc7a4f9db51bc4777705018b7d50f5028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 05/24] fix: search the requested test directory even when its
 own name is hidden

---
 src/native_runner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 72f7e19..9d69136 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -367,10 +367,12 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
     WalkDir::new(dir)
         .into_iter()
         .filter_entry(|e| {
-            e.file_name()
-                .to_str()
-                .map(|n| !is_hidden_or_ignored(n))
-                .unwrap_or(false)
+            // The directory the user asked for is searched whatever its name
+            e.depth() == 0
+                || e.file_name()
+                    .to_str()
+                    .map(|n| !is_hidden_or_ignored(n))
+                    .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
         .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
-- 
2.43.0


From bc938050d235e630519bf4f7d549094f74d7d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 06/24] fix: never give two cases of one test the same id

---
 python/rtest/mark.py          | 14 ++++++++------
 src/python_discovery/cases.rs | 13 +++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5cf79e3..d89d385 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -153,12 +153,12 @@ def _deduplicate_ids(ids: list[str]) -> list[str]:
     result: list[str] = []
 
     for id_ in ids:
-        if id_ not in seen:
-            seen[id_] = 0
-            result.append(id_)
-        else:
+        unique = id_
+        while unique in seen:
             seen[id_] += 1
-            result.append(f"{id_}_{seen[id_]}")
+            unique = f"{id_}_{seen[id_]}"
+        seen[unique] = 0
+        result.append(unique)
 
     return result
 
@@ -307,7 +307,9 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
             merged_kwargs.update(case.kwargs)
         result.append(ExpandedCase("-".join(tokens), merged_kwargs))
 
-    return result
+    # Joining can make the ids of different combinations equal ("a-b" + "c" and "a" + "b-c")
+    unique_ids = _deduplicate_ids([case.case_id for case in result])
+    return [ExpandedCase(case_id, case.kwargs) for case_id, case in zip(unique_ids, result)]
 
 
 def get_case_nodeid_suffix(case_id: str) -> str:
diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index bf73bfc..58c21d4 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -655,13 +655,14 @@ fn deduplicate_ids(ids: Vec<String>) -> Vec<String> {
     let mut result = Vec::with_capacity(ids.len());
 
     for id in ids {
-        let count = seen.entry(id.clone()).or_insert(0);
-        if *count == 0 {
-            result.push(id);
-        } else {
-            result.push(format!("{}_{}", id, count));
+        let mut unique = id.clone();
+        while seen.contains_key(&unique) {
+            let count = seen.entry(id.clone()).or_insert(0);
+            *count += 1;
+            unique = format!("{}_{}", id, count);
         }
-        *count += 1;
+        seen.insert(unique.clone(), 0);
+        result.push(unique);
     }
 
     result
-- 
2.43.0


From 0b84dc2021a734d76202520f80abd95bc99320ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 07/24] fix: report a test or module that exits the interpreter
 as an error

---
 python/rtest/worker/runner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5424810..c1c9345 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -232,7 +232,10 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:
+        # Includes SystemExit: a test that tries to exit must not end the worker
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
@@ -295,7 +298,9 @@ def run_tests(
             loaded_modules.append(module_name)
             test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
             all_test_cases.extend(test_cases)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             try:
                 rel_path = str(file_path.relative_to(root))
             except ValueError:
-- 
2.43.0


From 7034a7dd55f9e53461b301c4bf8acb2f013548ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 08/24] fix: run the discovered test method even when the
 function has another name

---
 python/rtest/worker/runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index c1c9345..a767191 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -39,6 +39,7 @@ class TestCase:
     skip: bool = False
     skip_reason: str = ""
     test_class: type | None = None
+    method_name: str | None = None
 
 
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
@@ -184,6 +185,7 @@ def _discover_tests_in_module(
                                 skip=skip,
                                 skip_reason=skip_reason,
                                 test_class=class_obj,
+                                method_name=method_name,
                             )
                         )
 
@@ -218,7 +220,9 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 if setup is not None:
                     setup()
                 try:
-                    bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)
+                    bound_method: Callable[..., object] = getattr(
+                        instance, test_case.method_name or test_case.func.__name__
+                    )
                     bound_method(**test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
-- 
2.43.0


From 2c0c8deec5d6e5b01cf4b72de3bebb4071edb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 09/24] fix: list results with an unknown outcome under the
 errors they are counted as

---
 src/native_runner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 9d69136..cee7e9b 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -125,7 +125,10 @@ fn aggregate_results(all_results: Vec<Vec<TestResult>>) -> AggregatedResults {
                     aggregated.errors.push(result);
                 }
                 "skipped" => aggregated.skipped += 1,
-                _ => aggregated.error += 1,
+                _ => {
+                    aggregated.error += 1;
+                    aggregated.errors.push(result);
+                }
             }
         }
     }
-- 
2.43.0


From 46f7bd446aceac9fff1e6f0231b89c18e269a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 10/24] fix: return each test file once when the given paths
 overlap

---
 src/native_runner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index cee7e9b..9d037d6 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -409,6 +409,8 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
     };
 
     test_files.sort();
+    // Overlapping arguments reach the same file more than once
+    test_files.dedup();
     test_files
 }
 
-- 
2.43.0


From 23b1e4e7acf6c0bfca1579e964dbfedf6c16486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 11/24] fix: keep the ids of fully literal case values
 (negative numbers, empty texts, texts with dashes)

---
 src/python_discovery/cases.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 58c21d4..43683a7 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -3,7 +3,9 @@
 //! This module extracts test case information from decorator AST nodes and expands
 //! parametrized tests into individual test cases during collection.
 
-use ruff_python_ast::{Decorator, Expr, ExprAttribute, ExprList, ExprName, ExprTuple, Keyword};
+use ruff_python_ast::{
+    Decorator, Expr, ExprAttribute, ExprList, ExprName, ExprTuple, ExprUnaryOp, Keyword, UnaryOp,
+};
 
 use super::constant_resolver::ConstantResolver;
 
@@ -378,7 +380,10 @@ fn extract_argvalues(
                 let (value, id) = extract_literal(elt, resolver)?;
 
                 // Fill in positional IDs for opaque positions
-                let final_id = if id.is_empty() {
+                let final_id = if !contains_opaque(&value) {
+                    // Fully evaluated: the ID may be empty or contain dashes of its own
+                    id
+                } else if id.is_empty() {
                     // Single opaque value - use first argname
                     format!("{}{}", first_argname, idx)
                 } else if matches!(value, LiteralValue::Sequence(_)) && id.contains('-') {
@@ -428,6 +433,15 @@ fn extract_argvalues(
     }
 }
 
+/// Check whether a value is opaque or a sequence with an opaque element.
+fn contains_opaque(value: &LiteralValue) -> bool {
+    match value {
+        LiteralValue::Opaque => true,
+        LiteralValue::Sequence(seq) => seq.iter().any(contains_opaque),
+        _ => false,
+    }
+}
+
 /// Extract a literal value from an expression.
 ///
 /// Returns `(value, id)` where `id` is the string representation for test case IDs.
@@ -480,6 +494,22 @@ fn extract_literal(
             let id = literal_to_id_string(&lit);
             Ok((lit, id))
         }
+        // A negative number is a unary minus applied to a number literal
+        Expr::UnaryOp(ExprUnaryOp {
+            op: UnaryOp::USub,
+            operand,
+            ..
+        }) if matches!(operand.as_ref(), Expr::NumberLiteral(_)) => {
+            let lit = match extract_literal(operand, resolver)?.0 {
+                LiteralValue::Int(i) => LiteralValue::Int(-i),
+                LiteralValue::Float(f) => LiteralValue::Float(-f),
+                // Integers too large for i64 are kept as their digits
+                LiteralValue::String(s) => LiteralValue::String(format!("-{}", s)),
+                other => other,
+            };
+            let id = literal_to_id_string(&lit);
+            Ok((lit, id))
+        }
         Expr::Tuple(ExprTuple { elts, .. }) | Expr::List(ExprList { elts, .. }) => {
             let mut values = Vec::with_capacity(elts.len());
             let mut sub_ids = Vec::with_capacity(elts.len());
-- 
2.43.0


From d9fce27b7b5317c285381873e81c8aed754a70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 12/24] fix: do not expand cases with starred values or ids
 that cannot be evaluated statically

---
 src/python_discovery/cases.rs | 49 +++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 43683a7..1de1ba8 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -240,7 +240,10 @@ fn parse_single_decorator(
             Err(reason) => return DecoratorParseResult::CannotExpand(reason),
         };
 
-    let ids = extract_ids_kwarg(&call.arguments.keywords, resolver);
+    let ids = match extract_ids_kwarg(&call.arguments.keywords, resolver) {
+        Ok(ids) => ids,
+        Err(reason) => return DecoratorParseResult::CannotExpand(reason),
+    };
 
     DecoratorParseResult::CasesSpec(CasesSpec {
         argnames,
@@ -542,6 +545,10 @@ fn extract_literal(
         Expr::ListComp(_) | Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
             Err(CannotExpandReason::Comprehension)
         }
+        // A starred element stands for any number of values
+        Expr::Starred(_) => Err(CannotExpandReason::UnsupportedExpression(
+            "starred expression".to_string(),
+        )),
         // Other expressions - treat as opaque if we can count them
         _ => Ok((LiteralValue::Opaque, String::new())),
     }
@@ -557,34 +564,32 @@ fn get_call_name(func: &Expr) -> String {
 }
 
 /// Extract the `ids` keyword argument if present.
+///
+/// IDs that cannot be determined statically make the whole decorator non-expandable:
+/// the collected IDs would not be the ones the test runs under.
 fn extract_ids_kwarg(
     keywords: &[Keyword],
     resolver: Option<&ConstantResolver>,
-) -> Option<Vec<String>> {
+) -> Result<Option<Vec<String>>, CannotExpandReason> {
     for kw in keywords {
-        if let Some(arg) = &kw.arg {
-            if arg.as_str() == "ids" {
-                if let Ok((LiteralValue::Sequence(seq), _)) = extract_literal(&kw.value, resolver) {
-                    let ids: Vec<String> =
-                        seq.into_iter().map(|v| literal_to_id_string(&v)).collect();
-                    return Some(ids);
-                } else if let Expr::List(list) = &kw.value {
-                    let mut ids = Vec::with_capacity(list.elts.len());
-                    for elt in list.elts.iter() {
-                        if let Expr::StringLiteral(s) = elt {
-                            ids.push(s.value.to_str().to_string());
-                        } else if let Ok((lit, _)) = extract_literal(elt, resolver) {
-                            ids.push(literal_to_id_string(&lit));
-                        } else {
-                            return None;
-                        }
-                    }
-                    return Some(ids);
+        let Some(arg) = &kw.arg else {
+            return Err(CannotExpandReason::UnsupportedExpression(
+                "keyword argument unpacking".to_string(),
+            ));
+        };
+        if arg.as_str() == "ids" {
+            return match extract_literal(&kw.value, resolver)?.0 {
+                LiteralValue::None => Ok(None),
+                LiteralValue::Sequence(seq) if !seq.iter().any(contains_opaque) => {
+                    Ok(Some(seq.iter().map(literal_to_id_string).collect()))
                 }
-            }
+                _ => Err(CannotExpandReason::UnsupportedExpression(
+                    "ids must be a list of literals".to_string(),
+                )),
+            };
         }
     }
-    None
+    Ok(None)
 }
 
 /// Convert a literal value to its string representation for use as a case ID.
-- 
2.43.0


From 18a31f799a172f42d755e4ee313576f2ef159364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 13/24] fix: resolve base classes reached through an imported
 submodule (from . import module)

---
 src/python_discovery/semantic_analyzer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index ae8d7d8..f76e260 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -774,15 +774,21 @@ impl SemanticTestDiscovery {
                 // Handle module.Class pattern
                 if let Expr::Name(module_name) = &*attr_expr.value {
                     if let Some(import_info) = imports.get(module_name.id.as_str()) {
+                        // `from package import module` binds the submodule of that name
+                        let mut module_parts = import_info.module_path.clone();
+                        if !import_info.imported_name.is_empty() {
+                            module_parts.push(import_info.imported_name.clone());
+                        }
+
                         // Handle relative imports
                         let module_path = if import_info.relative_level > 0 {
                             Self::resolve_relative_module_path(
                                 current_module_path,
                                 import_info.relative_level,
-                                &import_info.module_path,
+                                &module_parts,
                             )?
                         } else {
-                            import_info.module_path.clone()
+                            module_parts
                         };
 
                         return Ok(Some(ResolvedBaseClass {
-- 
2.43.0


From 21df51a58f99a3aed4b8907a99f9776e4dbe242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 14/24] fix: resolve relative imports of a package's
 __init__.py from the package itself

---
 src/python_discovery/semantic_analyzer.rs | 64 +++++++++++++++++------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index f76e260..5538965 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -60,6 +60,11 @@ pub struct TestClassInfo {
     pub class_specs: MethodCasesInfo,
 }
 
+/// Whether this file is the `__init__.py` of a package
+fn is_package_file(path: &Path) -> bool {
+    path.file_name() == Some(std::ffi::OsStr::new("__init__.py"))
+}
+
 /// Enhanced test discovery with semantic analysis
 pub struct SemanticTestDiscovery {
     config: TestDiscoveryConfig,
@@ -105,9 +110,12 @@ impl SemanticTestDiscovery {
         // Build constant resolver for this module
         let resolver = ConstantResolver::from_module(&ast_module);
 
+        // Relative imports in a package's `__init__.py` start from the package itself
+        let package = is_package_file(path).then_some(module_path.as_slice());
+
         // Build semantic model
         let semantic_module = SemanticModule {
-            kind: if path.file_name() == Some(std::ffi::OsStr::new("__init__.py")) {
+            kind: if package.is_some() {
                 ModuleKind::Package
             } else {
                 ModuleKind::Module
@@ -121,10 +129,10 @@ impl SemanticTestDiscovery {
         let semantic = SemanticModel::new(&typing_modules, path, semantic_module);
 
         // First pass: collect imports
-        let imports = self.collect_imports(&ast_module, &semantic);
+        let imports = self.collect_imports(&ast_module, package, &semantic);
 
         // Second pass: collect test classes
-        self.collect_test_classes(&ast_module, &module_path, &resolver)?;
+        self.collect_test_classes(&ast_module, &module_path, package, &resolver)?;
 
         // Third pass: resolve inheritance and collect all tests
         let mut all_tests = Vec::new();
@@ -166,35 +174,57 @@ impl SemanticTestDiscovery {
     }
 
     /// Helper to collect imports from a module without requiring a semantic model
-    fn collect_imports_from_module(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+    fn collect_imports_from_module(
+        &self,
+        module: &ModModule,
+        package: Option<&[String]>,
+    ) -> HashMap<String, ImportInfo> {
+        self.collect_imports_impl(module, package)
     }
 
     /// Collect imports from the module
     fn collect_imports(
         &self,
         module: &ModModule,
+        package: Option<&[String]>,
         _semantic: &SemanticModel,
     ) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+        self.collect_imports_impl(module, package)
     }
 
     /// Internal implementation of import collection
-    fn collect_imports_impl(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
+    ///
+    /// `package` is the module path when the module is a package's `__init__.py`, whose
+    /// relative imports are resolved here: one dot is the package itself, not its parent.
+    fn collect_imports_impl(
+        &self,
+        module: &ModModule,
+        package: Option<&[String]>,
+    ) -> HashMap<String, ImportInfo> {
         let mut imports = HashMap::new();
 
         for stmt in &module.body {
             match stmt {
                 Stmt::ImportFrom(import_from) => {
-                    let level = import_from.level as usize;
+                    let mut level = import_from.level as usize;
 
                     // Get module path, handling both absolute and relative imports
-                    let module_path = if let Some(module_name) = &import_from.module {
-                        module_name.split('.').map(String::from).collect()
-                    } else {
-                        // Pure relative import (e.g., "from . import something")
-                        Vec::new()
-                    };
+                    let mut module_path: Vec<String> =
+                        if let Some(module_name) = &import_from.module {
+                            module_name.split('.').map(String::from).collect()
+                        } else {
+                            // Pure relative import (e.g., "from . import something")
+                            Vec::new()
+                        };
+
+                    if let Some(package) = package {
+                        if level > 0 && level - 1 <= package.len() {
+                            let mut absolute = package[..package.len() - (level - 1)].to_vec();
+                            absolute.extend(module_path);
+                            module_path = absolute;
+                            level = 0;
+                        }
+                    }
 
                     for alias in &import_from.names {
                         let imported_name = alias.name.to_string();
@@ -239,6 +269,7 @@ impl SemanticTestDiscovery {
         &mut self,
         module: &ModModule,
         module_path: &[String],
+        package: Option<&[String]>,
         resolver: &ConstantResolver,
     ) -> CollectionResult<()> {
         for stmt in &module.body {
@@ -250,7 +281,7 @@ impl SemanticTestDiscovery {
                     let test_methods = self.collect_test_methods(class_def, resolver);
                     let class_specs =
                         parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                    let imports = self.collect_imports_from_module(module);
+                    let imports = self.collect_imports_from_module(module, package);
                     let base_classes =
                         self.collect_base_class_names(class_def, module_path, &imports)?;
 
@@ -684,6 +715,7 @@ impl SemanticTestDiscovery {
 
             // Build resolver for constants in this external module
             let external_resolver = ConstantResolver::from_module(&parsed_module.module);
+            let package = is_package_file(&parsed_module.path).then_some(module_path);
 
             // Extract test class information without storing the module
             for stmt in &parsed_module.module.body {
@@ -698,7 +730,7 @@ impl SemanticTestDiscovery {
                         &class_def.decorator_list,
                         Some(&external_resolver),
                     );
-                    let imports = self.collect_imports_from_module(&parsed_module.module);
+                    let imports = self.collect_imports_from_module(&parsed_module.module, package);
                     let base_classes =
                         self.collect_base_class_names(class_def, module_path, &imports)?;
 
-- 
2.43.0


From 50d44aa0e5b3d0f9082fa6ea2d8fea3f376d61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 15/24] fix: class and function name patterns accept wildcards
 anywhere when collecting, as at run time

---
 src/python_discovery/pattern.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index e0e2785..146eba9 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -1,14 +1,10 @@
 //! Pattern matching utilities for test discovery.
 
-/// Check if a name matches a pattern (supports * wildcards)
+use crate::collection::glob_match;
+
+/// Check if a name matches a pattern (shell-style wildcards, as at run time)
 pub fn matches(pattern: &str, name: &str) -> bool {
-    if let Some(prefix) = pattern.strip_suffix('*') {
-        name.starts_with(prefix)
-    } else if let Some(suffix) = pattern.strip_prefix('*') {
-        name.ends_with(suffix)
-    } else {
-        pattern == name
-    }
+    glob_match(pattern, name)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e297869962bea9ea93d57304d8fa7b2a56098c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 16/24] fix: collection honours the file, class and function
 patterns configured in pyproject.toml

---
 src/collection/nodes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 3d68207..7fc53ac 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -24,10 +24,23 @@ pub struct Session {
 
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
+        // Patterns configured in pyproject.toml take precedence over the defaults
+        let pytest_config = crate::config::read_pytest_config(&rootpath);
+        let mut config = CollectionConfig::default();
+        if !pytest_config.python_files.is_empty() {
+            config.python_files = pytest_config.python_files;
+        }
+        if !pytest_config.python_classes.is_empty() {
+            config.python_classes = pytest_config.python_classes;
+        }
+        if !pytest_config.python_functions.is_empty() {
+            config.python_functions = pytest_config.python_functions;
+        }
+
         Self {
             nodeid: String::new(),
             rootpath,
-            config: CollectionConfig::default(),
+            config,
             cache: HashMap::new(),
         }
     }
-- 
2.43.0


From 4b9cc75e2e1fad3e5303b70d07b09ae67ef19176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 17/24] fix: norecursedirs does not prune the directory
 collection starts from

---
 src/collection/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 7fc53ac..6641b41 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -99,7 +99,8 @@ impl Session {
     }
 
     fn collect_path(self: &Rc<Self>, path: &Path) -> CollectionResult<Vec<Box<dyn Collector>>> {
-        if self.should_ignore_path(path)? {
+        // `norecursedirs` prunes the descent, not the directory collection starts from
+        if !path.is_dir() && self.should_ignore_path(path)? {
             return Ok(vec![]);
         }
 
-- 
2.43.0


From ac274d47730ee0339fd4c7621dab078875210d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 18/24] fix: overlapping paths list each test once

---
 src/collection_integration.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collection_integration.rs b/src/collection_integration.rs
index 0a3e419..3dde967 100644
--- a/src/collection_integration.rs
+++ b/src/collection_integration.rs
@@ -3,6 +3,7 @@
 use crate::collection::error::{CollectionError, CollectionOutcome, CollectionWarning};
 use crate::collection::nodes::{collect_one_node, Session};
 use crate::collection::types::Collector;
+use std::collections::HashSet;
 use std::path::PathBuf;
 use std::rc::Rc;
 
@@ -40,6 +41,10 @@ pub fn collect_tests_rust(
                 );
             }
 
+            // Overlapping paths reach the same test several times; list it once
+            let mut seen = HashSet::new();
+            test_nodes.retain(|node| seen.insert(node.clone()));
+
             Ok((test_nodes, collection_errors))
         }
         Err(e) => Err(e),
-- 
2.43.0


From 042f7c4bcd5342766fd3db2d29b5e666bb453cbb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 19/24] fix: tests inherited from a class of the same module
 are collected whatever its name

---
 src/python_discovery/semantic_analyzer.rs | 40 +++++++++++++----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 5538965..32c7175 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -276,26 +276,30 @@ impl SemanticTestDiscovery {
             if let Stmt::ClassDef(class_def) = stmt {
                 let class_name = class_def.name.as_str();
 
-                if self.is_test_class(class_name) {
-                    let has_init = self.class_has_init(class_def);
-                    let test_methods = self.collect_test_methods(class_def, resolver);
-                    let class_specs =
-                        parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                    let imports = self.collect_imports_from_module(module, package);
-                    let base_classes =
-                        self.collect_base_class_names(class_def, module_path, &imports)?;
-
-                    let info = TestClassInfo {
-                        name: class_name.to_string(),
-                        has_init,
-                        test_methods,
-                        base_classes,
-                        class_specs,
+                // Classes that do not match the patterns may still be base classes of those that do
+                let has_init = self.class_has_init(class_def);
+                let test_methods = self.collect_test_methods(class_def, resolver);
+                let class_specs =
+                    parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
+                let imports = self.collect_imports_from_module(module, package);
+                let base_classes =
+                    match self.collect_base_class_names(class_def, module_path, &imports) {
+                        Ok(base_classes) => base_classes,
+                        Err(e) if self.is_test_class(class_name) => return Err(e),
+                        // Not collected itself: an unresolvable base is no error
+                        Err(_) => continue,
                     };
 
-                    self.class_cache
-                        .insert((module_path.to_vec(), class_name.to_string()), info);
-                }
+                let info = TestClassInfo {
+                    name: class_name.to_string(),
+                    has_init,
+                    test_methods,
+                    base_classes,
+                    class_specs,
+                };
+
+                self.class_cache
+                    .insert((module_path.to_vec(), class_name.to_string()), info);
             }
         }
 
-- 
2.43.0


From 1f6a6da39bc5a640f78a4a6d3e1550ac1fef20e8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 20/24] fix: a test defined more than once along a class
 hierarchy or in a file is collected once

---
 src/python_discovery/semantic_analyzer.rs | 69 ++++++++++++-----------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 32c7175..0a4ba06 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -143,6 +143,8 @@ impl SemanticTestDiscovery {
                 if self.is_test_function(func.name.as_str()) {
                     let cases_expansion =
                         parse_decorators_for_cases(&func.decorator_list, Some(&resolver));
+                    // A later definition replaces an earlier one of the same name
+                    all_tests.retain(|t: &TestInfo| t.name != func.name.as_str());
                     all_tests.push(TestInfo {
                         name: func.name.to_string(),
                         line: func.range().start().to_u32() as usize,
@@ -157,6 +159,10 @@ impl SemanticTestDiscovery {
         // Collect test methods from classes
         for stmt in &ast_module.body {
             if let Stmt::ClassDef(class_def) = stmt {
+                // A later definition replaces an earlier one of the same name
+                let class_name = class_def.name.as_str();
+                all_tests.retain(|t| t.class_name.as_deref() != Some(class_name));
+
                 if let Some(tests) = self.collect_class_tests(
                     class_def,
                     &module_path,
@@ -324,6 +330,8 @@ impl SemanticTestDiscovery {
                     // Store only method-level specs (not combined with class)
                     let method_specs =
                         parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+                    // A later definition replaces an earlier one of the same name
+                    methods.retain(|m: &TestMethodInfo| m.name != method_name);
                     methods.push(TestMethodInfo {
                         name: method_name.to_string(),
                         line: func.range().start().to_u32() as usize,
@@ -411,20 +419,9 @@ impl SemanticTestDiscovery {
         // Parse class-level decorators once
         let class_specs = parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
 
-        // Collect methods defined directly in this class (to filter inherited methods)
-        let own_method_names: std::collections::HashSet<String> = class_def
-            .body
-            .iter()
-            .filter_map(|stmt| {
-                if let Stmt::FunctionDef(func) = stmt {
-                    let name = func.name.as_str();
-                    if self.is_test_function(name) {
-                        return Some(name.to_string());
-                    }
-                }
-                None
-            })
-            .collect();
+        // Methods defined directly in this class, which override the inherited ones
+        let own_methods = self.collect_test_methods(class_def, resolver);
+        let mut seen_names: HashSet<String> = own_methods.iter().map(|m| m.name.clone()).collect();
 
         let mut all_tests = Vec::new();
 
@@ -446,8 +443,9 @@ impl SemanticTestDiscovery {
                             self.get_base_class_methods(&resolved, module_resolver)?
                         {
                             for method in base_methods {
-                                // Skip if this method is overridden in the child class
-                                if own_method_names.contains(&method.name) {
+                                // Skip if this method is overridden in the child class or
+                                // was already inherited from an earlier base
+                                if !seen_names.insert(method.name.clone()) {
                                     continue;
                                 }
 
@@ -475,23 +473,16 @@ impl SemanticTestDiscovery {
         }
 
         // Collect methods defined in this class
-        for stmt in &class_def.body {
-            if let Stmt::FunctionDef(func) = stmt {
-                let method_name = func.name.as_str();
-                if self.is_test_function(method_name) {
-                    let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
-                    let cases_expansion = combine_and_expand_specs(&class_specs, &method_specs);
-
-                    all_tests.push(TestInfo {
-                        name: method_name.to_string(),
-                        line: func.range().start().to_u32() as usize,
-                        is_method: true,
-                        class_name: Some(class_name.to_string()),
-                        cases_expansion,
-                    });
-                }
-            }
+        for method in own_methods {
+            let cases_expansion = combine_and_expand_specs(&class_specs, &method.method_specs);
+
+            all_tests.push(TestInfo {
+                name: method.name,
+                line: method.line,
+                is_method: true,
+                class_name: Some(class_name.to_string()),
+                cases_expansion,
+            });
         }
 
         Ok(Some(all_tests))
@@ -664,13 +655,23 @@ impl SemanticTestDiscovery {
         };
 
         let mut all_methods = Vec::new();
+        let mut seen_names: HashSet<String> = base_info
+            .test_methods
+            .iter()
+            .map(|m| m.name.clone())
+            .collect();
 
         // First, recursively get methods from this class's base classes
         for base_class in &base_info.base_classes {
             if let Some(parent_methods) =
                 self.get_base_class_methods_impl(base_class, module_resolver, visited)?
             {
-                all_methods.extend(parent_methods);
+                for method in parent_methods {
+                    // This class or an earlier base may define the method too
+                    if seen_names.insert(method.name.clone()) {
+                        all_methods.push(method);
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 20c9075411892e2caadd33188dcae0439427bc02 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 21/24] fix: a package takes precedence over a module of the
 same name

---
 src/python_discovery/module_resolver.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index 96aa898..087bc7a 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -118,17 +118,17 @@ impl ModuleResolver {
 
         let module_name = &module_path[module_path.len() - 1];
 
-        // Try module_name.py (regular module)
-        let mut py_file = base_dir.clone();
-        py_file.push(format!("{}.py", module_name));
-        paths.push(py_file);
-
-        // Try module_name/__init__.py (package)
-        let mut package_init = base_dir;
+        // Try module_name/__init__.py first: Python prefers a package to a module of the same name
+        let mut package_init = base_dir.clone();
         package_init.push(module_name);
         package_init.push("__init__.py");
         paths.push(package_init);
 
+        // Try module_name.py (regular module)
+        let mut py_file = base_dir;
+        py_file.push(format!("{}.py", module_name));
+        paths.push(py_file);
+
         paths
     }
 
-- 
2.43.0


From 3eedb1f43f71f8b9f89957101bc4499540145811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 22/24] fix: the native runner starts from the configured test
 paths

With no paths on the command line, collection starts from testpaths, but the
native runner then ran the files of the whole root.
---
 src/pyo3.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 4848a90..4589e13 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -232,8 +232,19 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
                 pytest_config.python_functions
             };
 
+            // Without explicit paths, start from the configured test paths as collection does
+            let paths: Vec<String> = if args.files.is_empty() {
+                pytest_config
+                    .testpaths
+                    .iter()
+                    .map(|path| path.to_string_lossy().into_owned())
+                    .collect()
+            } else {
+                args.files
+            };
+
             // For execution, still use file-based collection (worker handles discovery)
-            let test_files = collect_test_files(&rootpath, &args.files, &python_files);
+            let test_files = collect_test_files(&rootpath, &paths, &python_files);
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From 20b2b1f6bb0d91126896e49a73c4edc8fff701db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 23/24] fix: a name bound more than once is not a constant, and
 large integers keep their digits

---
 src/python_discovery/constant_resolver.rs | 97 ++++++++++++++++++++++-
 1 file changed, 94 insertions(+), 3 deletions(-)

diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index e497c17..964b49a 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -3,8 +3,8 @@
 //! This module builds a scope tree from a Python module's AST to resolve
 //! constant expressions like `X`, `Color.RED`, or `Outer.Inner.VALUE`.
 
-use ruff_python_ast::{Expr, ExprAttribute, ExprName, ModModule, Stmt};
-use std::collections::HashMap;
+use ruff_python_ast::{ExceptHandler, Expr, ExprAttribute, ExprName, ModModule, Stmt};
+use std::collections::{HashMap, HashSet};
 
 use super::cases::LiteralValue;
 
@@ -49,6 +49,18 @@ impl ConstantScope {
             }
         }
 
+        // A name bound more than once has no fixed value
+        let mut bound = Vec::new();
+        collect_bound_names(stmts, &mut bound);
+        let mut seen = HashSet::new();
+        for name in bound {
+            if seen.contains(&name) {
+                scope.constants.remove(&name);
+                scope.children.remove(&name);
+            }
+            seen.insert(name);
+        }
+
         scope
     }
 
@@ -94,6 +106,81 @@ impl ConstantResolver {
     }
 }
 
+/// Collect the names a list of statements binds in its scope, once per binding.
+fn collect_bound_names(stmts: &[Stmt], names: &mut Vec<String>) {
+    for stmt in stmts {
+        match stmt {
+            Stmt::Assign(assign) => {
+                for target in &assign.targets {
+                    collect_target_names(target, names);
+                }
+            }
+            Stmt::AugAssign(aug) => collect_target_names(&aug.target, names),
+            Stmt::AnnAssign(ann) => {
+                if ann.value.is_some() {
+                    collect_target_names(&ann.target, names);
+                }
+            }
+            Stmt::FunctionDef(func) => names.push(func.name.to_string()),
+            Stmt::ClassDef(class_def) => names.push(class_def.name.to_string()),
+            Stmt::Import(import) => {
+                for alias in &import.names {
+                    names.push(alias.asname.as_ref().unwrap_or(&alias.name).to_string());
+                }
+            }
+            Stmt::ImportFrom(import) => {
+                for alias in &import.names {
+                    names.push(alias.asname.as_ref().unwrap_or(&alias.name).to_string());
+                }
+            }
+            Stmt::If(branch) => {
+                collect_bound_names(&branch.body, names);
+                for clause in &branch.elif_else_clauses {
+                    collect_bound_names(&clause.body, names);
+                }
+            }
+            Stmt::For(walk) => {
+                collect_target_names(&walk.target, names);
+                collect_bound_names(&walk.body, names);
+                collect_bound_names(&walk.orelse, names);
+            }
+            Stmt::While(walk) => {
+                collect_bound_names(&walk.body, names);
+                collect_bound_names(&walk.orelse, names);
+            }
+            Stmt::With(with) => collect_bound_names(&with.body, names),
+            Stmt::Try(attempt) => {
+                collect_bound_names(&attempt.body, names);
+                for ExceptHandler::ExceptHandler(handler) in &attempt.handlers {
+                    collect_bound_names(&handler.body, names);
+                }
+                collect_bound_names(&attempt.orelse, names);
+                collect_bound_names(&attempt.finalbody, names);
+            }
+            _ => {}
+        }
+    }
+}
+
+/// Collect the names an assignment target binds.
+fn collect_target_names(target: &Expr, names: &mut Vec<String>) {
+    match target {
+        Expr::Name(name) => names.push(name.id.to_string()),
+        Expr::List(list) => {
+            for elt in &list.elts {
+                collect_target_names(elt, names);
+            }
+        }
+        Expr::Tuple(tuple) => {
+            for elt in &tuple.elts {
+                collect_target_names(elt, names);
+            }
+        }
+        Expr::Starred(starred) => collect_target_names(&starred.value, names),
+        _ => {}
+    }
+}
+
 /// Convert an attribute chain to a path: `a.b.c` -> `["a", "b", "c"]`.
 fn expr_to_path(expr: &Expr) -> Option<Vec<String>> {
     match expr {
@@ -115,7 +202,11 @@ fn try_extract_literal(expr: &Expr) -> Option<LiteralValue> {
         Expr::NumberLiteral(num) => {
             use ruff_python_ast::Number;
             match &num.value {
-                Number::Int(i) => Some(LiteralValue::Int(i.as_i64().unwrap_or(0))),
+                // Integers too large for i64 are kept as their digits
+                Number::Int(i) => Some(match i.as_i64() {
+                    Some(v) => LiteralValue::Int(v),
+                    None => LiteralValue::String(i.to_string()),
+                }),
                 Number::Float(f) => Some(LiteralValue::Float(*f)),
                 Number::Complex { .. } => None,
             }
-- 
2.43.0


From d7819d518965fadb54318774c02722e497b3e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 24/24] fix: names bound in a class body hide the module's
 constants in its decorators

---
 src/python_discovery/constant_resolver.rs | 12 ++++++++++++
 src/python_discovery/semantic_analyzer.rs |  3 ++-
 src/python_discovery/visitor.rs           | 10 +++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index 964b49a..a3b8d77 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -88,6 +88,18 @@ impl ConstantResolver {
         }
     }
 
+    /// Resolver for the body of a class, where the names it binds hide those of the module.
+    pub fn for_class_body(&self, body: &[Stmt]) -> Self {
+        let mut root = self.root.clone();
+        let mut hidden = Vec::new();
+        collect_bound_names(body, &mut hidden);
+        for name in hidden {
+            root.constants.remove(&name);
+            root.children.remove(&name);
+        }
+        Self { root }
+    }
+
     /// Resolve an expression to a literal value.
     ///
     /// Returns `Some((value, source_path))` where `source_path` is the
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 0a4ba06..049aa62 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -322,6 +322,7 @@ impl SemanticTestDiscovery {
         resolver: &ConstantResolver,
     ) -> Vec<TestMethodInfo> {
         let mut methods = Vec::new();
+        let resolver = resolver.for_class_body(&class_def.body);
 
         for stmt in &class_def.body {
             if let Stmt::FunctionDef(func) = stmt {
@@ -329,7 +330,7 @@ impl SemanticTestDiscovery {
                 if self.is_test_function(method_name) {
                     // Store only method-level specs (not combined with class)
                     let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+                        parse_decorators_to_specs(&func.decorator_list, Some(&resolver));
                     // A later definition replaces an earlier one of the same name
                     methods.retain(|m: &TestMethodInfo| m.name != method_name);
                     methods.push(TestMethodInfo {
diff --git a/src/python_discovery/visitor.rs b/src/python_discovery/visitor.rs
index 55929eb..6c82b88 100644
--- a/src/python_discovery/visitor.rs
+++ b/src/python_discovery/visitor.rs
@@ -73,6 +73,7 @@ impl TestDiscoveryVisitor {
                 let name = class.name.as_str();
                 if self.is_test_class(name) {
                     let has_init = self.class_has_init(class);
+                    let resolver = resolver.for_class_body(&class.body);
 
                     let mut methods = Vec::new();
                     for stmt in &class.body {
@@ -80,8 +81,10 @@ impl TestDiscoveryVisitor {
                             let method_name = func.name.as_str();
                             if self.is_test_function(method_name) {
                                 // Store only method-level specs (not combined with class)
-                                let method_specs =
-                                    parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+                                let method_specs = parse_decorators_to_specs(
+                                    &func.decorator_list,
+                                    Some(&resolver),
+                                );
                                 methods.push(CachedMethodInfo {
                                     name: method_name.to_string(),
                                     line: func.range.start().to_u32() as usize,
@@ -184,12 +187,13 @@ impl TestDiscoveryVisitor {
         }
 
         // Then collect methods defined directly in this class
+        let resolver = resolver.for_class_body(&class.body);
         for stmt in &class.body {
             if let Stmt::FunctionDef(func) = stmt {
                 let method_name = func.name.as_str();
                 if self.is_test_function(method_name) {
                     let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+                        parse_decorators_to_specs(&func.decorator_list, Some(&resolver));
                     let cases_expansion = combine_and_expand_specs(&class_specs, &method_specs);
 
                     self.tests.push(TestInfo {
-- 
2.43.0

