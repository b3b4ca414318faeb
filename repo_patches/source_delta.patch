From a5139a92d0a9001ce28eac6df4f461a399822a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 01/53] fix: keep worker results when a test or module raises
 SystemExit

SystemExit and other BaseException subclasses (pytest.skip(), pytest.fail())
escaped the worker's handlers, so the process ended without writing any result
of its shard.
---
 python/rtest/worker/runner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5424810..34be18d 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -232,7 +232,10 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:
+        # SystemExit and pytest's outcome exceptions must not end the worker and lose its results
         outcome = "error"
         error_info = {"traceback": traceback.format_exc()}
         error_type = type(e).__name__
@@ -295,7 +298,9 @@ def run_tests(
             loaded_modules.append(module_name)
             test_cases = _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
             all_test_cases.extend(test_cases)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             try:
                 rel_path = str(file_path.relative_to(root))
             except ValueError:
-- 
2.43.0


From 8be143a8c021e23e03cc265eae438c989e225096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 02/53] fix: run the method a test id names, not the function's
 __name__

An aliased or wrapped method (test_b = test_a) was looked up by its function
name, so a different method ran or the lookup failed.
---
 python/rtest/worker/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 34be18d..2e6c992 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -39,6 +39,7 @@ class TestCase:
     skip: bool = False
     skip_reason: str = ""
     test_class: type | None = None
+    method_name: str = ""
 
 
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
@@ -184,6 +185,7 @@ def _discover_tests_in_module(
                                 skip=skip,
                                 skip_reason=skip_reason,
                                 test_class=class_obj,
+                                method_name=method_name,
                             )
                         )
 
@@ -218,7 +220,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                 if setup is not None:
                     setup()
                 try:
-                    bound_method: Callable[..., object] = getattr(instance, test_case.func.__name__)
+                    bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                     bound_method(**test_case.kwargs)
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
-- 
2.43.0


From 7abf95b96507eb026be19c3844b47cb412dff730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 03/53] fix: report coroutine and generator tests as errors
 instead of passed

Calling such a test only creates an object; its body never ran, yet it was
reported as passed.
---
 python/rtest/worker/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 2e6c992..b0f00df 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -192,6 +192,15 @@ def _discover_tests_in_module(
     return test_cases
 
 
+def _require_executed(returned: object) -> None:
+    """Raise if calling a test only created a coroutine or generator, so that its body never ran."""
+    if inspect.iscoroutine(returned) or inspect.isgenerator(returned):
+        returned.close()
+    elif not inspect.isasyncgen(returned):
+        return
+    raise TypeError("coroutine and generator tests are not supported: the test body was not executed")
+
+
 def _run_single_test(test_case: TestCase) -> TestResult:
     """Execute a single test case and capture results."""
     if test_case.skip:
@@ -221,7 +230,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     setup()
                 try:
                     bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
-                    bound_method(**test_case.kwargs)
+                    _require_executed(bound_method(**test_case.kwargs))
                 finally:
                     teardown: Callable[[], object] | None = getattr(instance, "teardown_method", None) or getattr(
                         instance, "tearDown", None
@@ -229,7 +238,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     if teardown is not None:
                         teardown()
             else:
-                test_case.func(**test_case.kwargs)
+                _require_executed(test_case.func(**test_case.kwargs))
     except AssertionError as e:
         outcome = "failed"
         error_info = {"traceback": traceback.format_exc()}
-- 
2.43.0


From 62b70ed12a6b578d7e862259e5eec0fa3689a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 04/53] fix: write worker results that strict JSON parsers
 accept

A lone surrogate in captured output or in a traceback was written as an
unpaired \\u escape, which serde_json rejects, and the results of the whole
shard were dropped.
---
 python/rtest/worker/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index b0f00df..5b3869d 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -340,10 +340,11 @@ def run_tests(
         sys.modules.pop(loaded_module_name, None)
 
     output_file.parent.mkdir(parents=True, exist_ok=True)
-    with output_file.open("w") as f:
+    # Lone surrogates are replaced: as \\u escapes they make strict JSON parsers reject the file
+    with output_file.open("w", encoding="utf-8", errors="replace") as f:
         for result in results:
             result_dict: dict[str, object] = asdict(result)
-            f.write(json.dumps(result_dict) + "\n")
+            f.write(json.dumps(result_dict, ensure_ascii=False) + "\n")
 
     has_failures = any(r.outcome in ("failed", "error") for r in results)
     return 1 if has_failures else 0
-- 
2.43.0


From 7057e03b144b733b26669585c32e8ecb17ec934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 05/53] fix: never generate a case id that is already taken

The ids a, a, a_1 became a, a_1, a_1: the generated suffix collided with a
given id.
---
 python/rtest/mark.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 5cf79e3..b298e77 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -149,16 +149,17 @@ mark = Mark()
 
 def _deduplicate_ids(ids: list[str]) -> list[str]:
     """Deduplicate IDs by adding suffixes _1, _2, etc. for duplicates."""
-    seen: dict[str, int] = {}
+    counts: dict[str, int] = {}
+    used: set[str] = set()
     result: list[str] = []
 
     for id_ in ids:
-        if id_ not in seen:
-            seen[id_] = 0
-            result.append(id_)
-        else:
-            seen[id_] += 1
-            result.append(f"{id_}_{seen[id_]}")
+        unique_id = id_
+        while unique_id in used:
+            counts[id_] = counts.get(id_, 0) + 1
+            unique_id = f"{id_}_{counts[id_]}"
+        used.add(unique_id)
+        result.append(unique_id)
 
     return result
 
-- 
2.43.0


From 8a6ed0a2449430a05214ebe102c3ac29399d71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 06/53] fix: do not add cases to the function a decorated test
 wraps

functools.wraps copies the attribute, so both functions shared one list and
decorating the wrapper changed the cases of the wrapped test.
---
 python/rtest/mark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index b298e77..308a4f2 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -109,9 +109,8 @@ class Mark:
 
         def decorator(func: F) -> F:
             cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
-            if not getattr(func, "__rtest_cases__", None):
-                func.__rtest_cases__ = cases_list  # type: ignore[union-attr]
-            cases_list.append(spec)
+            # A new list: the old one may be shared with the function this one wraps
+            func.__rtest_cases__ = [*cases_list, spec]  # type: ignore[union-attr]
             return func
 
         return decorator
-- 
2.43.0


From bf37428b3c0149b7c36ece654219311ec36f622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 07/53] fix: run the cases of every pytest.mark.parametrize
 form

argvalues given by keyword, or as a range, set or other iterable, were taken
as empty, so the test silently disappeared from the native run.
---
 python/rtest/mark.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 308a4f2..8d51cf3 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -214,17 +214,17 @@ def _expand_single_spec(spec: ParametrizeSpec) -> list[ExpandedCase]:
     return entries
 
 
-def _extract_pytest_marker_args(mark_args: tuple[object, ...]) -> PytestMarkerArgs:
-    """Extract argnames and argvalues from pytest marker args.
+def _extract_pytest_marker_args(
+    mark_args: tuple[object, ...], mark_kwargs: MappingProxyType[str, object]
+) -> PytestMarkerArgs:
+    """Extract argnames and argvalues, given by position or by keyword, from a pytest marker.
 
     Returns:
         PytestMarkerArgs with defaults for missing values.
     """
-    if len(mark_args) >= 2:
-        return PytestMarkerArgs(mark_args[0], mark_args[1])
-    elif len(mark_args) == 1:
-        return PytestMarkerArgs(mark_args[0], [])
-    return PytestMarkerArgs("", [])
+    argnames = mark_args[0] if mark_args else mark_kwargs.get("argnames", "")
+    argvalues = mark_args[1] if len(mark_args) >= 2 else mark_kwargs.get("argvalues", [])
+    return PytestMarkerArgs(argnames, argvalues)
 
 
 def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
@@ -247,7 +247,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
             # Convert pytest marker to ParametrizeSpec
             mark_args: tuple[object, ...] = getattr(pytest_mark, "args", ())
             mark_kwargs: MappingProxyType[str, object] = getattr(pytest_mark, "kwargs", MappingProxyType({}))
-            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args)
+            argnames_raw, argvalues_raw = _extract_pytest_marker_args(mark_args, mark_kwargs)
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
@@ -257,7 +257,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
 
             # Convert argvalues to tuple
-            argvalues_seq: Sequence[object] = argvalues_raw if isinstance(argvalues_raw, (list, tuple)) else []
+            argvalues_seq: tuple[object, ...] = tuple(argvalues_raw)  # type: ignore[arg-type]
 
             # Handle ids
             ids_tuple: tuple[str, ...] | None = None
@@ -267,7 +267,7 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
             specs.append(
                 ParametrizeSpec(
                     argnames=parsed_argnames,
-                    argvalues=tuple(argvalues_seq),
+                    argvalues=argvalues_seq,
                     ids=ids_tuple,
                 )
             )
-- 
2.43.0


From 26a8184ca2bee4250aa25ea2e31075828b7ed996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 08/53] fix: keep worker results when a test closes sys.stdout
 or sys.stderr

Reading the closed capture buffer raised outside any handler and ended the
worker without results.
---
 python/rtest/worker/runner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 5b3869d..d6cf6c3 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -257,8 +257,9 @@ def _run_single_test(test_case: TestCase) -> TestResult:
         nodeid=test_case.nodeid,
         outcome=outcome,
         duration_ms=duration_ms,
-        stdout=stdout_capture.getvalue(),
-        stderr=stderr_capture.getvalue(),
+        # A test may have closed the stream it was given
+        stdout="" if stdout_capture.closed else stdout_capture.getvalue(),
+        stderr="" if stderr_capture.closed else stderr_capture.getvalue(),
         error=error_info,
         error_type=error_type,
     )
@@ -340,7 +341,7 @@ def run_tests(
         sys.modules.pop(loaded_module_name, None)
 
     output_file.parent.mkdir(parents=True, exist_ok=True)
-    # Lone surrogates are replaced: as \\u escapes they make strict JSON parsers reject the file
+    # Lone surrogates are replaced: as escapes they make strict JSON parsers reject the file
     with output_file.open("w", encoding="utf-8", errors="replace") as f:
         for result in results:
             result_dict: dict[str, object] = asdict(result)
-- 
2.43.0


From e46dca7f403fd33fa5ff7885a81986280645bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 09/53] fix: keep tests that subproject grouping dropped

A test whose file is a symlink out of a subproject or does not exist was
assigned to the root group and then removed from it because its path
lies below a subproject found for another test.
---
 src/subproject.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 5b76531..926bba8 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -1,6 +1,6 @@
 //! Subproject detection and test grouping functionality.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 
 /// Splits a test node ID into file path and test parts
@@ -17,15 +17,9 @@ pub fn group_tests_by_subproject(
     test_nodes: &[String],
 ) -> HashMap<PathBuf, Vec<String>> {
     let mut groups: HashMap<PathBuf, Vec<String>> = HashMap::new();
-    let mut subproject_roots: HashSet<PathBuf> = HashSet::new();
 
     for test_node in test_nodes {
         let subproject_root = find_subproject_root(rootpath, test_node);
-        let is_subproject = subproject_root != *rootpath;
-
-        if is_subproject {
-            subproject_roots.insert(subproject_root.clone());
-        }
 
         groups
             .entry(subproject_root)
@@ -33,17 +27,6 @@ pub fn group_tests_by_subproject(
             .push(test_node.clone());
     }
 
-    if let Some(root_tests) = groups.get_mut(rootpath) {
-        root_tests.retain(|test_node| {
-            let (file_path, _) = split_test_node(test_node);
-            let test_path = rootpath.join(file_path);
-
-            !subproject_roots
-                .iter()
-                .any(|subproject| test_path.starts_with(subproject))
-        });
-    }
-
     groups
 }
 
-- 
2.43.0


From 88b8696a462d67bfde14645591d501eff30805c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 10/53] fix: rewrite test ids that reach a subproject through a
 symlink or '..'

Such ids were grouped under the subproject by their real location but
kept their root-relative path, which names nothing from there.
---
 src/subproject.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/subproject.rs b/src/subproject.rs
index 926bba8..0a69efc 100644
--- a/src/subproject.rs
+++ b/src/subproject.rs
@@ -69,8 +69,15 @@ pub fn make_test_paths_relative(
             let (file_path, test_part) = split_test_node(node);
 
             let absolute_path = old_base.join(file_path);
-            match absolute_path.strip_prefix(new_base) {
-                Ok(relative_path) => {
+            // A path through a symlink or `..` lies below new_base only once resolved
+            let relative_path = match absolute_path.strip_prefix(new_base) {
+                Ok(relative_path) => Some(relative_path.to_path_buf()),
+                Err(_) => absolute_path.canonicalize().ok().and_then(|real_path| {
+                    real_path.strip_prefix(new_base).map(Path::to_path_buf).ok()
+                }),
+            };
+            match relative_path {
+                Some(relative_path) => {
                     let mut new_node = relative_path.to_string_lossy().into_owned();
                     if let Some(test) = test_part {
                         new_node.push_str("::");
@@ -78,7 +85,7 @@ pub fn make_test_paths_relative(
                     }
                     new_node
                 }
-                Err(_) => node.clone(),
+                None => node.clone(),
             }
         })
         .collect()
-- 
2.43.0


From 9232e5e37399f713439c5e3dd3499e2d100ab91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 11/53] fix: run the tests of a parallel run with zero workers

With -n 0 or --maxprocesses 0 nothing was distributed and the run
exited 0 without running a test.
---
 src/runner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runner.rs b/src/runner.rs
index 454a5fd..7766d3a 100644
--- a/src/runner.rs
+++ b/src/runner.rs
@@ -62,6 +62,9 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         }
     };
 
+    // Zero workers would distribute nothing and report success without running any test
+    let worker_count = config.worker_count.max(1);
+
     if config.use_subprojects {
         let test_groups = subproject::group_tests_by_subproject(config.rootpath, &test_nodes);
 
@@ -76,7 +79,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
             };
 
             let scheduler = create_scheduler(distribution_mode.clone());
-            let test_batches = scheduler.distribute_tests(adjusted_tests, config.worker_count);
+            let test_batches = scheduler.distribute_tests(adjusted_tests, worker_count);
 
             for batch in test_batches {
                 if !batch.is_empty() {
@@ -119,7 +122,7 @@ pub fn execute_tests_parallel(config: &ParallelExecutionConfig, test_nodes: Vec<
         overall_exit_code
     } else {
         let scheduler = create_scheduler(distribution_mode);
-        let test_batches = scheduler.distribute_tests(test_nodes, config.worker_count);
+        let test_batches = scheduler.distribute_tests(test_nodes, worker_count);
 
         if test_batches.is_empty() {
             log::info!("No test batches to execute.");
-- 
2.43.0


From a96bc23b0a4c1e53922572b68d282d66da01db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 12/53] fix: keep parametrized tests with '::' in a case id in
 their scope

loadscope took the text around the '::' for a class name and spread the
functions of one module over several workers.
---
 src/scheduler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 3307f68..bc16f7f 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -206,7 +206,12 @@ impl Scheduler for NoScheduler {
 fn extract_scope(test_path: &str) -> String {
     // Extract module/class scope from test path
     // Format: path/to/file.py::TestClass::test_method or path/to/file.py::test_function
-    let parts: Vec<&str> = test_path.split("::").collect();
+    // The case id of a parametrized test (file.py::test_function[a::b]) is not part of the scope
+    let case_start = test_path
+        .find("::")
+        .and_then(|file_end| test_path[file_end..].find('[').map(|i| file_end + i))
+        .unwrap_or(test_path.len());
+    let parts: Vec<&str> = test_path[..case_start].split("::").collect();
     match parts.len() {
         0 => test_path.to_string(), // Shouldn't happen, but handle gracefully
         1 => parts[0].to_string(),  // Just file path
-- 
2.43.0


From efe58a21c1259216adbb84523a6f5513847426c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 13/53] fix: search a directory that was named explicitly even
 if it is hidden

Native discovery found nothing when the root or a given path was a
directory whose own name starts with a dot, and reported success.
---
 src/native_runner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4d0f615..cba5c11 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -369,10 +369,12 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
     WalkDir::new(dir)
         .into_iter()
         .filter_entry(|e| {
-            e.file_name()
-                .to_str()
-                .map(|n| !is_hidden_or_ignored(n))
-                .unwrap_or(false)
+            // The directory to search was asked for, whatever its name is
+            e.depth() == 0
+                || e.file_name()
+                    .to_str()
+                    .map(|n| !is_hidden_or_ignored(n))
+                    .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
         .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
-- 
2.43.0


From dbab4766ad950fe8a0329fe9fefbfc267a0344ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 14/53] fix: run a test file once when given paths overlap

Native discovery listed a file once for every given path that names it
or lies above it.
---
 src/native_runner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index cba5c11..c6eec1d 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -408,6 +408,7 @@ pub fn collect_test_files(root: &Path, paths: &[String], patterns: &[String]) ->
     };
 
     test_files.sort();
+    test_files.dedup();
     test_files
 }
 
-- 
2.43.0


From 4761bf16c5900e5911903c2e1def4a9aba778fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 15/53] fix: fail a native run when a worker's results are
 missing or unreadable

A results file that was missing, truncated or corrupt was ignored or
only warned about, and a worker that exited 1 before writing any result
(for example because rtest.worker cannot be imported) went unnoticed,
so the run exited 0.
---
 src/native_runner.rs | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index c6eec1d..67d9cfc 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -195,6 +195,7 @@ fn print_summary(results: &AggregatedResults) {
     );
 }
 
+/// Runs one worker and returns whether it reported success (exit code 0) or test failures (1).
 fn run_worker(
     worker_id: usize,
     python: &str,
@@ -203,7 +204,7 @@ fn run_worker(
     files: &[PathBuf],
     python_classes: &[String],
     python_functions: &[String],
-) -> Result<(), String> {
+) -> Result<bool, String> {
     let mut cmd = Command::new(python);
     cmd.arg("-m")
         .arg("rtest.worker")
@@ -259,7 +260,7 @@ fn run_worker(
         }
     }
 
-    Ok(())
+    Ok(output.status.success())
 }
 
 pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) -> i32 {
@@ -310,11 +311,35 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 
     let mut worker_errors = Vec::new();
-    for (i, handle) in handles.into_iter().enumerate() {
-        match handle.join() {
-            Ok(Ok(())) => {}
-            Ok(Err(e)) => worker_errors.push(format!("Worker {}: {}", i, e)),
-            Err(_) => worker_errors.push(format!("Worker {} panicked", i)),
+    let mut all_results = Vec::new();
+    for (i, (handle, output_file)) in handles.into_iter().zip(&output_files).enumerate() {
+        let outcome = match handle.join() {
+            Ok(Ok(success)) => Some(success),
+            Ok(Err(e)) => {
+                worker_errors.push(format!("Worker {}: {}", i, e));
+                None
+            }
+            Err(_) => {
+                worker_errors.push(format!("Worker {} panicked", i));
+                None
+            }
+        };
+
+        match parse_results_file(output_file) {
+            Ok(results) => {
+                // Exit code 1 has to be explained by a result that is not passed or skipped
+                let clean = |r: &TestResult| r.outcome == "passed" || r.outcome == "skipped";
+                if outcome == Some(false) && results.iter().all(clean) {
+                    worker_errors.push(format!(
+                        "Worker {}: exited with code 1 without reporting a failure",
+                        i
+                    ));
+                }
+                all_results.push(results);
+            }
+            // A worker that already failed need not have written results
+            Err(_) if outcome.is_none() && !output_file.exists() => {}
+            Err(e) => worker_errors.push(format!("Worker {}: {}", i, e)),
         }
     }
 
@@ -322,16 +347,6 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
         eprintln!("{}", error);
     }
 
-    let mut all_results = Vec::new();
-    for output_file in &output_files {
-        if output_file.exists() {
-            match parse_results_file(output_file) {
-                Ok(results) => all_results.push(results),
-                Err(e) => eprintln!("Warning: {}", e),
-            }
-        }
-    }
-
     let aggregated = aggregate_results(all_results);
     print_summary(&aggregated);
 
-- 
2.43.0


From d9d0159e67343b331695205570ee17abf98e2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 16/53] fix: do not print PASSED when a native run fails
 because of a worker

The status line looked only at the delivered results, so a run that
exits 1 because a worker crashed was summarised as PASSED.
---
 src/native_runner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 67d9cfc..4469ff0 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -157,7 +157,7 @@ fn print_test_results(label: &str, results: &[TestResult]) {
     }
 }
 
-fn print_summary(results: &AggregatedResults) {
+fn print_summary(results: &AggregatedResults, worker_errors: &[String]) {
     println!();
     println!("================================ SUMMARY ================================");
 
@@ -181,7 +181,7 @@ fn print_summary(results: &AggregatedResults) {
         parts.push(format!("{} skipped", results.skipped));
     }
 
-    let status = if results.failed > 0 || results.error > 0 {
+    let status = if results.failed > 0 || results.error > 0 || !worker_errors.is_empty() {
         "FAILED"
     } else {
         "PASSED"
@@ -348,7 +348,7 @@ pub fn execute_native(config: &NativeRunnerConfig, test_files: Vec<PathBuf>) ->
     }
 
     let aggregated = aggregate_results(all_results);
-    print_summary(&aggregated);
+    print_summary(&aggregated, &worker_errors);
 
     // TempDir is automatically cleaned up when dropped
 
-- 
2.43.0


From d9fb5a28eba6f56f37288e4f740c10f463bd40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 17/53] fix: report tests whose setup or teardown never ran as
 errors

A coroutine or generator setup or teardown was created and dropped, and the
test was reported passed.
---
 python/rtest/worker/runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index d6cf6c3..f8d9bc3 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -193,12 +193,12 @@ def _discover_tests_in_module(
 
 
 def _require_executed(returned: object) -> None:
-    """Raise if calling a test only created a coroutine or generator, so that its body never ran."""
+    """Raise if calling a test, setup or teardown only created a coroutine or generator, so that its body never ran."""
     if inspect.iscoroutine(returned) or inspect.isgenerator(returned):
         returned.close()
     elif not inspect.isasyncgen(returned):
         return
-    raise TypeError("coroutine and generator tests are not supported: the test body was not executed")
+    raise TypeError("coroutines and generators are not supported in tests: the body was not executed")
 
 
 def _run_single_test(test_case: TestCase) -> TestResult:
@@ -227,7 +227,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                     instance, "setUp", None
                 )
                 if setup is not None:
-                    setup()
+                    _require_executed(setup())
                 try:
                     bound_method: Callable[..., object] = getattr(instance, test_case.method_name)
                     _require_executed(bound_method(**test_case.kwargs))
@@ -236,7 +236,7 @@ def _run_single_test(test_case: TestCase) -> TestResult:
                         instance, "tearDown", None
                     )
                     if teardown is not None:
-                        teardown()
+                        _require_executed(teardown())
             else:
                 _require_executed(test_case.func(**test_case.kwargs))
     except AssertionError as e:
-- 
2.43.0


From 297990251236f167c3aa38e33703c8da4972f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 18/53] fix: honour pytest skip marks of base classes and
 single marks

A class with pytest marks of its own lost the skip mark of its base class and
its tests ran; a class-level pytestmark that is not a list failed the file.
---
 python/rtest/worker/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index f8d9bc3..3b75d44 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -81,6 +81,16 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
+def _pytest_marks(obj: object) -> list[object]:
+    """Get the pytest marks of a function, or of a class and its bases, nearest first."""
+    owners: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
+    marks: list[object] = []
+    for owner in owners:
+        own: object = getattr(owner, "__dict__", {}).get("pytestmark", [])
+        marks.extend(own if isinstance(own, (list, tuple)) else [own])
+    return marks
+
+
 def _is_skipped(obj: object) -> tuple[bool, str]:
     """Check if an object has the skip marker (rtest or pytest)."""
     from rtest.mark import SKIP_DEPRECATION_MSG
@@ -92,8 +102,7 @@ def _is_skipped(obj: object) -> tuple[bool, str]:
         return True, skip_reason_attr
 
     # Check pytest marker (with deprecation warning)
-    pytest_marks: list[object] = getattr(obj, "pytestmark", [])
-    for pytest_mark in pytest_marks:
+    for pytest_mark in _pytest_marks(obj):
         if getattr(pytest_mark, "name", None) == "skip":
             func_name: str = str(getattr(obj, "__name__", str(obj)))
             warnings.warn(
-- 
2.43.0


From 532c3fbcbbbc8053ab11abd7bc831693cc450622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 19/53] fix: collect a directory that was asked for whatever
 its name is

---
 src/collection/nodes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 3d68207..57ae6ba 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -86,10 +86,7 @@ impl Session {
     }
 
     fn collect_path(self: &Rc<Self>, path: &Path) -> CollectionResult<Vec<Box<dyn Collector>>> {
-        if self.should_ignore_path(path)? {
-            return Ok(vec![]);
-        }
-
+        // This path was asked for, so norecursedirs does not apply to it
         if path.is_dir() {
             let dir = Directory::new(path.to_path_buf(), Rc::clone(self));
             Ok(vec![Box::new(dir)])
-- 
2.43.0


From 05724c6fe330d8eeafb50dbfedd033824fbcd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 20/53] fix: collect with the name patterns of pyproject.toml,
 as the native runner does

---
 src/collection/nodes.rs         | 15 ++++++++++++++-
 src/python_discovery/pattern.rs | 12 ++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 57ae6ba..7bc1ded 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -24,10 +24,23 @@ pub struct Session {
 
 impl Session {
     pub fn new(rootpath: PathBuf) -> Self {
+        // Patterns configured in pyproject.toml replace the defaults
+        let pytest_config = crate::config::read_pytest_config(&rootpath);
+        let mut config = CollectionConfig::default();
+        if !pytest_config.python_files.is_empty() {
+            config.python_files = pytest_config.python_files;
+        }
+        if !pytest_config.python_classes.is_empty() {
+            config.python_classes = pytest_config.python_classes;
+        }
+        if !pytest_config.python_functions.is_empty() {
+            config.python_functions = pytest_config.python_functions;
+        }
+
         Self {
             nodeid: String::new(),
             rootpath,
-            config: CollectionConfig::default(),
+            config,
             cache: HashMap::new(),
         }
     }
diff --git a/src/python_discovery/pattern.rs b/src/python_discovery/pattern.rs
index e0e2785..754f4de 100644
--- a/src/python_discovery/pattern.rs
+++ b/src/python_discovery/pattern.rs
@@ -1,14 +1,10 @@
 //! Pattern matching utilities for test discovery.
 
-/// Check if a name matches a pattern (supports * wildcards)
+use crate::collection::glob_match;
+
+/// Check if a name matches a pattern (supports `*`, `?` and `[...]` wildcards)
 pub fn matches(pattern: &str, name: &str) -> bool {
-    if let Some(prefix) = pattern.strip_suffix('*') {
-        name.starts_with(prefix)
-    } else if let Some(suffix) = pattern.strip_prefix('*') {
-        name.ends_with(suffix)
-    } else {
-        pattern == name
-    }
+    glob_match(pattern, name)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1456b92f5e77e2abecc29ea056644f7d82721a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 21/53] fix: collect each test once when the given paths
 overlap

---
 src/collection_integration.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/collection_integration.rs b/src/collection_integration.rs
index 0a3e419..f6bbbc5 100644
--- a/src/collection_integration.rs
+++ b/src/collection_integration.rs
@@ -3,6 +3,7 @@
 use crate::collection::error::{CollectionError, CollectionOutcome, CollectionWarning};
 use crate::collection::nodes::{collect_one_node, Session};
 use crate::collection::types::Collector;
+use std::collections::HashSet;
 use std::path::PathBuf;
 use std::rc::Rc;
 
@@ -31,10 +32,12 @@ pub fn collect_tests_rust(
             }
 
             let mut test_nodes = Vec::new();
+            let mut seen = HashSet::new();
 
             for collector in collectors {
                 collect_items_recursive(
                     collector.as_ref(),
+                    &mut seen,
                     &mut test_nodes,
                     &mut collection_errors,
                 );
@@ -46,12 +49,17 @@ pub fn collect_tests_rust(
     }
 }
 
-/// Recursively collect all test items
+/// Recursively collect all test items, each node once even if the given paths overlap
 fn collect_items_recursive(
     collector: &dyn Collector,
+    seen: &mut HashSet<String>,
     test_nodes: &mut Vec<String>,
     collection_errors: &mut CollectionErrors,
 ) {
+    if !seen.insert(collector.nodeid().into()) {
+        return;
+    }
+
     if collector.is_item() {
         test_nodes.push(collector.nodeid().into());
     } else {
@@ -60,7 +68,7 @@ fn collect_items_recursive(
         match report.outcome {
             CollectionOutcome::Passed => {
                 for child in report.result {
-                    collect_items_recursive(child.as_ref(), test_nodes, collection_errors);
+                    collect_items_recursive(child.as_ref(), seen, test_nodes, collection_errors);
                 }
             }
             CollectionOutcome::Failed => {
-- 
2.43.0


From a93759260d9cb2343ea718d9f0b3dd5b200c618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 22/53] fix: collect an inherited test once, from the class
 Python takes it from

---
 src/python_discovery/semantic_analyzer.rs | 136 ++++++++++------------
 1 file changed, 64 insertions(+), 72 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index ae8d7d8..a66d00d 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -394,51 +394,42 @@ impl SemanticTestDiscovery {
         let mut all_tests = Vec::new();
 
         // Collect inherited methods
+        let mut lineage = Vec::new();
         if let Some(arguments) = &class_def.arguments {
             for base_expr in arguments.args.iter() {
                 let resolved =
                     self.resolve_base_class(base_expr, current_module_path, imports, semantic)?;
 
-                match resolved {
-                    Some(resolved) => {
-                        // Skip inheritance analysis for known stdlib modules that we can't analyze
-                        if self.is_stdlib_module_to_skip(&resolved.module_path) {
-                            continue;
-                        }
-
-                        // Get method specs from the base class (not yet combined with class decorators)
-                        if let Some(base_methods) =
-                            self.get_base_class_methods(&resolved, module_resolver)?
-                        {
-                            for method in base_methods {
-                                // Skip if this method is overridden in the child class
-                                if own_method_names.contains(&method.name) {
-                                    continue;
-                                }
-
-                                // Combine CHILD class specs with PARENT method specs
-                                // This is the key fix: inherited methods get the child's class decorators
-                                let cases_expansion =
-                                    combine_and_expand_specs(&class_specs, &method.method_specs);
-
-                                all_tests.push(TestInfo {
-                                    name: method.name.clone(),
-                                    line: method.line,
-                                    is_method: true,
-                                    class_name: Some(class_name.to_string()),
-                                    cases_expansion,
-                                });
-                            }
-                        }
-                    }
-                    None => {
-                        // Skip unresolvable base class expressions
-                        continue;
-                    }
+                // Skip unresolvable base class expressions and known stdlib modules that we
+                // can't analyze
+                if let Some(resolved) = resolved {
+                    self.collect_lineage(
+                        &resolved,
+                        module_resolver,
+                        &mut HashSet::new(),
+                        &mut lineage,
+                    )?;
                 }
             }
         }
 
+        // Combine CHILD class specs with PARENT method specs
+        // This is the key fix: inherited methods get the child's class decorators
+        for method in Self::inherited_methods(&lineage) {
+            // Skip if this method is overridden in the child class
+            if own_method_names.contains(&method.name) {
+                continue;
+            }
+
+            all_tests.push(TestInfo {
+                name: method.name.clone(),
+                line: method.line,
+                is_method: true,
+                class_name: Some(class_name.to_string()),
+                cases_expansion: combine_and_expand_specs(&class_specs, &method.method_specs),
+            });
+        }
+
         // Collect methods defined in this class
         for stmt in &class_def.body {
             if let Stmt::FunctionDef(func) = stmt {
@@ -580,25 +571,16 @@ impl SemanticTestDiscovery {
         Ok(false)
     }
 
-    /// Get test methods from a base class, including inherited methods
-    fn get_base_class_methods(
-        &mut self,
-        resolved: &ResolvedBaseClass,
-        module_resolver: &mut ModuleResolver,
-    ) -> CollectionResult<Option<Vec<TestMethodInfo>>> {
-        let mut visited = HashSet::new();
-        self.get_base_class_methods_impl(resolved, module_resolver, &mut visited)
-    }
-
-    /// Internal implementation of get_base_class_methods with cycle detection
-    fn get_base_class_methods_impl(
+    /// Append a base class and its ancestors to `lineage`, depth first, with cycle detection
+    fn collect_lineage(
         &mut self,
         resolved: &ResolvedBaseClass,
         module_resolver: &mut ModuleResolver,
         visited: &mut HashSet<(Vec<String>, String)>,
-    ) -> CollectionResult<Option<Vec<TestMethodInfo>>> {
+        lineage: &mut Vec<((Vec<String>, String), TestClassInfo)>,
+    ) -> CollectionResult<()> {
         if self.is_stdlib_module_to_skip(&resolved.module_path) {
-            return Ok(None);
+            return Ok(());
         }
 
         // Check for cycles
@@ -617,36 +599,46 @@ impl SemanticTestDiscovery {
             self.ensure_module_loaded(&resolved.module_path, module_resolver)?;
         }
 
-        // Get the base class info
-        let base_info = match self.class_cache.get(&key) {
-            Some(info) => info.clone(),
-            None => {
-                // Remove from visited before early return to allow sibling branches
-                // to process this class without false cycle detection
-                visited.remove(&key);
-                return Ok(None);
-            }
-        };
-
-        let mut all_methods = Vec::new();
+        if let Some(base_info) = self.class_cache.get(&key).cloned() {
+            lineage.push((key.clone(), base_info.clone()));
 
-        // First, recursively get methods from this class's base classes
-        for base_class in &base_info.base_classes {
-            if let Some(parent_methods) =
-                self.get_base_class_methods_impl(base_class, module_resolver, visited)?
-            {
-                all_methods.extend(parent_methods);
+            for base_class in &base_info.base_classes {
+                self.collect_lineage(base_class, module_resolver, visited, lineage)?;
             }
         }
 
-        // Then add this class's own methods
-        all_methods.extend(base_info.test_methods.clone());
-
         // Remove from visited after processing to allow sibling branches in diamond
         // inheritance patterns to revisit this class without false cycle detection
         visited.remove(&key);
 
-        Ok(Some(all_methods))
+        Ok(())
+    }
+
+    /// The test methods a class gets from its `lineage`, each name once and from the class that
+    /// Python would take it from. Methods of the remotest ancestors come first.
+    fn inherited_methods(
+        lineage: &[((Vec<String>, String), TestClassInfo)],
+    ) -> Vec<TestMethodInfo> {
+        // A class reached along several branches (a diamond) comes after all its subclasses
+        let order: Vec<&TestClassInfo> = lineage
+            .iter()
+            .enumerate()
+            .filter(|(i, (key, _))| !lineage[i + 1..].iter().any(|(later, _)| later == key))
+            .map(|(_, (_, info))| info)
+            .collect();
+
+        let mut methods = Vec::new();
+        for (i, info) in order.iter().enumerate().rev() {
+            for method in &info.test_methods {
+                let overridden = order[..i]
+                    .iter()
+                    .any(|nearer| nearer.test_methods.iter().any(|m| m.name == method.name));
+                if !overridden {
+                    methods.push(method.clone());
+                }
+            }
+        }
+        methods
     }
 
     /// Ensure a module is loaded and its test classes are cached
-- 
2.43.0


From 879a963ee62288fbd51138ff194dd485783c3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 23/53] fix: a test defined again is collected once, as its
 last definition

---
 src/python_discovery/semantic_analyzer.rs | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index a66d00d..0b52a87 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -60,6 +60,23 @@ pub struct TestClassInfo {
     pub class_specs: MethodCasesInfo,
 }
 
+/// The statements of a body, without the functions and classes that it defines again later
+fn last_definitions(body: &[Stmt]) -> impl Iterator<Item = &Stmt> {
+    fn name(stmt: &Stmt) -> Option<&str> {
+        match stmt {
+            Stmt::FunctionDef(func) => Some(func.name.as_str()),
+            Stmt::ClassDef(class) => Some(class.name.as_str()),
+            _ => None,
+        }
+    }
+
+    body.iter().enumerate().filter_map(move |(i, stmt)| {
+        let redefined =
+            name(stmt).is_some_and(|n| body[i + 1..].iter().any(|s| name(s) == Some(n)));
+        (!redefined).then_some(stmt)
+    })
+}
+
 /// Enhanced test discovery with semantic analysis
 pub struct SemanticTestDiscovery {
     config: TestDiscoveryConfig,
@@ -130,7 +147,7 @@ impl SemanticTestDiscovery {
         let mut all_tests = Vec::new();
 
         // Collect module-level test functions
-        for stmt in &ast_module.body {
+        for stmt in last_definitions(&ast_module.body) {
             if let Stmt::FunctionDef(func) = stmt {
                 if self.is_test_function(func.name.as_str()) {
                     let cases_expansion =
@@ -147,7 +164,7 @@ impl SemanticTestDiscovery {
         }
 
         // Collect test methods from classes
-        for stmt in &ast_module.body {
+        for stmt in last_definitions(&ast_module.body) {
             if let Stmt::ClassDef(class_def) = stmt {
                 if let Some(tests) = self.collect_class_tests(
                     class_def,
@@ -282,7 +299,7 @@ impl SemanticTestDiscovery {
     ) -> Vec<TestMethodInfo> {
         let mut methods = Vec::new();
 
-        for stmt in &class_def.body {
+        for stmt in last_definitions(&class_def.body) {
             if let Stmt::FunctionDef(func) = stmt {
                 let method_name = func.name.as_str();
                 if self.is_test_function(method_name) {
@@ -431,7 +448,7 @@ impl SemanticTestDiscovery {
         }
 
         // Collect methods defined in this class
-        for stmt in &class_def.body {
+        for stmt in last_definitions(&class_def.body) {
             if let Stmt::FunctionDef(func) = stmt {
                 let method_name = func.name.as_str();
                 if self.is_test_function(method_name) {
-- 
2.43.0


From bcb2b6afad2fd9e7858d4389620d064bd990ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 24/53] fix: find base classes named through modules of a
 package

---
 src/python_discovery/semantic_analyzer.rs | 31 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 0b52a87..a9cbf6b 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -230,9 +230,16 @@ impl SemanticTestDiscovery {
                 }
                 Stmt::Import(import) => {
                     for alias in &import.names {
-                        let parts: Vec<String> = alias.name.split('.').map(String::from).collect();
-                        let local_name =
-                            Self::get_alias_name_or_default(alias.asname.as_ref(), &alias.name);
+                        let mut parts: Vec<String> =
+                            alias.name.split('.').map(String::from).collect();
+                        // Without an alias, `import a.b` binds `a`
+                        let local_name = match &alias.asname {
+                            Some(asname) => asname.to_string(),
+                            None => {
+                                parts.truncate(1);
+                                parts[0].clone()
+                            }
+                        };
 
                         imports.insert(
                             local_name,
@@ -780,11 +787,18 @@ impl SemanticTestDiscovery {
                 }))
             }
             Expr::Attribute(attr_expr) => {
-                // Handle module.Class pattern
-                if let Expr::Name(module_name) = &*attr_expr.value {
+                // Handle module.Class and package.module.Class patterns
+                let mut parents = Vec::new();
+                let mut value = &*attr_expr.value;
+                while let Expr::Attribute(parent) = value {
+                    parents.insert(0, parent.attr.to_string());
+                    value = &*parent.value;
+                }
+
+                if let Expr::Name(module_name) = value {
                     if let Some(import_info) = imports.get(module_name.id.as_str()) {
                         // Handle relative imports
-                        let module_path = if import_info.relative_level > 0 {
+                        let mut module_path = if import_info.relative_level > 0 {
                             Self::resolve_relative_module_path(
                                 current_module_path,
                                 import_info.relative_level,
@@ -793,6 +807,11 @@ impl SemanticTestDiscovery {
                         } else {
                             import_info.module_path.clone()
                         };
+                        // `from package import module` names the module itself
+                        if !import_info.imported_name.is_empty() {
+                            module_path.push(import_info.imported_name.clone());
+                        }
+                        module_path.extend(parents);
 
                         return Ok(Some(ResolvedBaseClass {
                             module_path,
-- 
2.43.0


From a08d6c6eca789f141912cf7c3606d58547e2d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 25/53] fix: resolve relative imports of a package from the
 package itself

---
 src/python_discovery/semantic_analyzer.rs | 70 +++++++++++++++--------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index a9cbf6b..de14595 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -27,6 +27,20 @@ struct ImportInfo {
     imported_name: String,
     /// The level of relative import (0 for absolute, 1 for '.', 2 for '..', etc.)
     relative_level: usize,
+    /// Whether the importing module is a package (`__init__.py`), which '.' then denotes
+    from_package: bool,
+}
+
+impl ImportInfo {
+    /// How many components of the importing module's path a relative import drops
+    fn levels_up(&self) -> usize {
+        self.relative_level - usize::from(self.from_package)
+    }
+}
+
+/// Whether a file is the `__init__.py` of a package
+fn is_package_file(path: &Path) -> bool {
+    path.file_name() == Some(std::ffi::OsStr::new("__init__.py"))
 }
 
 /// Resolved base class information
@@ -124,7 +138,7 @@ impl SemanticTestDiscovery {
 
         // Build semantic model
         let semantic_module = SemanticModule {
-            kind: if path.file_name() == Some(std::ffi::OsStr::new("__init__.py")) {
+            kind: if is_package_file(path) {
                 ModuleKind::Package
             } else {
                 ModuleKind::Module
@@ -138,10 +152,10 @@ impl SemanticTestDiscovery {
         let semantic = SemanticModel::new(&typing_modules, path, semantic_module);
 
         // First pass: collect imports
-        let imports = self.collect_imports(&ast_module, &semantic);
+        let imports = self.collect_imports(&ast_module, &semantic, is_package_file(path));
 
         // Second pass: collect test classes
-        self.collect_test_classes(&ast_module, &module_path, &resolver)?;
+        self.collect_test_classes(&ast_module, &module_path, &imports, &resolver)?;
 
         // Third pass: resolve inheritance and collect all tests
         let mut all_tests = Vec::new();
@@ -183,8 +197,12 @@ impl SemanticTestDiscovery {
     }
 
     /// Helper to collect imports from a module without requiring a semantic model
-    fn collect_imports_from_module(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+    fn collect_imports_from_module(
+        &self,
+        module: &ModModule,
+        is_package: bool,
+    ) -> HashMap<String, ImportInfo> {
+        self.collect_imports_impl(module, is_package)
     }
 
     /// Collect imports from the module
@@ -192,12 +210,17 @@ impl SemanticTestDiscovery {
         &self,
         module: &ModModule,
         _semantic: &SemanticModel,
+        is_package: bool,
     ) -> HashMap<String, ImportInfo> {
-        self.collect_imports_impl(module)
+        self.collect_imports_impl(module, is_package)
     }
 
     /// Internal implementation of import collection
-    fn collect_imports_impl(&self, module: &ModModule) -> HashMap<String, ImportInfo> {
+    fn collect_imports_impl(
+        &self,
+        module: &ModModule,
+        is_package: bool,
+    ) -> HashMap<String, ImportInfo> {
         let mut imports = HashMap::new();
 
         for stmt in &module.body {
@@ -224,6 +247,7 @@ impl SemanticTestDiscovery {
                                 module_path: module_path.clone(),
                                 imported_name,
                                 relative_level: level,
+                                from_package: is_package,
                             },
                         );
                     }
@@ -247,6 +271,7 @@ impl SemanticTestDiscovery {
                                 module_path: parts,
                                 imported_name: String::new(),
                                 relative_level: 0,
+                                from_package: is_package,
                             },
                         );
                     }
@@ -263,6 +288,7 @@ impl SemanticTestDiscovery {
         &mut self,
         module: &ModModule,
         module_path: &[String],
+        imports: &HashMap<String, ImportInfo>,
         resolver: &ConstantResolver,
     ) -> CollectionResult<()> {
         for stmt in &module.body {
@@ -274,9 +300,8 @@ impl SemanticTestDiscovery {
                     let test_methods = self.collect_test_methods(class_def, resolver);
                     let class_specs =
                         parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                    let imports = self.collect_imports_from_module(module);
                     let base_classes =
-                        self.collect_base_class_names(class_def, module_path, &imports)?;
+                        self.collect_base_class_names(class_def, module_path, imports)?;
 
                     let info = TestClassInfo {
                         name: class_name.to_string(),
@@ -714,7 +739,10 @@ impl SemanticTestDiscovery {
                         &class_def.decorator_list,
                         Some(&external_resolver),
                     );
-                    let imports = self.collect_imports_from_module(&parsed_module.module);
+                    let imports = self.collect_imports_from_module(
+                        &parsed_module.module,
+                        is_package_file(&parsed_module.path),
+                    );
                     let base_classes =
                         self.collect_base_class_names(class_def, module_path, &imports)?;
 
@@ -765,7 +793,7 @@ impl SemanticTestDiscovery {
                         // Resolve relative import to absolute path
                         Self::resolve_relative_module_path(
                             current_module_path,
-                            import_info.relative_level,
+                            import_info.levels_up(),
                             &import_info.module_path,
                         )?
                     } else {
@@ -801,7 +829,7 @@ impl SemanticTestDiscovery {
                         let mut module_path = if import_info.relative_level > 0 {
                             Self::resolve_relative_module_path(
                                 current_module_path,
-                                import_info.relative_level,
+                                import_info.levels_up(),
                                 &import_info.module_path,
                             )?
                         } else {
@@ -838,29 +866,23 @@ impl SemanticTestDiscovery {
     /// Helper to resolve relative imports to absolute module paths
     fn resolve_relative_module_path(
         current_module_path: &[String],
-        relative_level: usize,
+        levels_up: usize,
         module_parts: &[String],
     ) -> CollectionResult<Vec<String>> {
-        if relative_level == 0 {
-            // Not a relative import
-            return Ok(module_parts.to_vec());
-        }
-
         // For relative imports, go up the module hierarchy
-        // Level 1 (.) = current package
-        // Level 2 (..) = parent package, etc.
+        // From a module, level 1 (.) = current package, level 2 (..) = parent package, etc.
 
-        if current_module_path.len() < relative_level {
+        if current_module_path.len() < levels_up {
             // Can't resolve beyond top-level package
             return Err(CollectionError::ImportError(format!(
                 "Attempted relative import beyond top-level package (level {} from depth {})",
-                relative_level,
+                levels_up,
                 current_module_path.len()
             )));
         }
 
-        // Go up the hierarchy by relative_level
-        let base_path = &current_module_path[..current_module_path.len() - relative_level];
+        // Go up the hierarchy
+        let base_path = &current_module_path[..current_module_path.len() - levels_up];
 
         // Combine with the module parts from the import
         let mut result = base_path.to_vec();
-- 
2.43.0


From 97b965fcec8c087fbb7f776da4ead6d75a57b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 26/53] fix: find base classes that a package re-exports

---
 src/python_discovery/semantic_analyzer.rs | 45 ++++++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index de14595..13efdc6 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -96,6 +96,8 @@ pub struct SemanticTestDiscovery {
     config: TestDiscoveryConfig,
     /// Cache of test classes by module path and class name
     class_cache: HashMap<(Vec<String>, String), TestClassInfo>,
+    /// Names that loaded modules import from other modules, e.g. re-exported classes
+    reexports: HashMap<(Vec<String>, String), ResolvedBaseClass>,
     /// Warnings collected during discovery
     warnings: Vec<CollectionWarning>,
     /// Current file path for warning generation
@@ -107,6 +109,7 @@ impl SemanticTestDiscovery {
         Self {
             config,
             class_cache: HashMap::new(),
+            reexports: HashMap::new(),
             warnings: Vec::new(),
             current_file_path: None,
         }
@@ -595,8 +598,14 @@ impl SemanticTestDiscovery {
         let base_info = match self.class_cache.get(&key) {
             Some(info) => info.clone(),
             None => {
+                let has_init = match self.reexports.get(&key).cloned() {
+                    Some(target) => {
+                        self.base_class_has_init_impl(&target, module_resolver, visited)?
+                    }
+                    None => false,
+                };
                 visited.remove(&key);
-                return Ok(false);
+                return Ok(has_init);
             }
         };
 
@@ -654,6 +663,8 @@ impl SemanticTestDiscovery {
             for base_class in &base_info.base_classes {
                 self.collect_lineage(base_class, module_resolver, visited, lineage)?;
             }
+        } else if let Some(target) = self.reexports.get(&key).cloned() {
+            self.collect_lineage(&target, module_resolver, visited, lineage)?;
         }
 
         // Remove from visited after processing to allow sibling branches in diamond
@@ -725,6 +736,34 @@ impl SemanticTestDiscovery {
 
             // Build resolver for constants in this external module
             let external_resolver = ConstantResolver::from_module(&parsed_module.module);
+            let imports = self.collect_imports_from_module(
+                &parsed_module.module,
+                is_package_file(&parsed_module.path),
+            );
+
+            // Remember what the module imports, it may re-export classes of other modules
+            for (local_name, import_info) in &imports {
+                let target_path = if import_info.relative_level > 0 {
+                    Self::resolve_relative_module_path(
+                        module_path,
+                        import_info.levels_up(),
+                        &import_info.module_path,
+                    )
+                } else {
+                    Ok(import_info.module_path.clone())
+                };
+
+                if let Ok(target_path) = target_path {
+                    self.reexports.insert(
+                        (module_path.to_vec(), local_name.clone()),
+                        ResolvedBaseClass {
+                            module_path: target_path,
+                            class_name: import_info.imported_name.clone(),
+                            is_local: false,
+                        },
+                    );
+                }
+            }
 
             // Extract test class information without storing the module
             for stmt in &parsed_module.module.body {
@@ -739,10 +778,6 @@ impl SemanticTestDiscovery {
                         &class_def.decorator_list,
                         Some(&external_resolver),
                     );
-                    let imports = self.collect_imports_from_module(
-                        &parsed_module.module,
-                        is_package_file(&parsed_module.path),
-                    );
                     let base_classes =
                         self.collect_base_class_names(class_def, module_path, &imports)?;
 
-- 
2.43.0


From 70c1718bb7af4cc174fe9b8c80d1173038320507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 27/53] fix: find base classes in the directory a test file is
 imported from

---
 src/python_discovery/discovery.rs       |  1 +
 src/python_discovery/module_resolver.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/python_discovery/discovery.rs b/src/python_discovery/discovery.rs
index 185d8a4..1551ba1 100644
--- a/src/python_discovery/discovery.rs
+++ b/src/python_discovery/discovery.rs
@@ -67,6 +67,7 @@ pub fn discover_tests_with_inheritance(
 ) -> CollectionResult<(Vec<TestInfo>, Vec<CollectionWarning>)> {
     let module_path = path_to_module_path(path, root_path);
     let mut module_resolver = ModuleResolver::new(root_path)?;
+    module_resolver.add_import_dir_of(path);
     let mut discovery = SemanticTestDiscovery::new(config.clone());
 
     discovery.discover_tests(path, source, module_path, &mut module_resolver)
diff --git a/src/python_discovery/module_resolver.rs b/src/python_discovery/module_resolver.rs
index 96aa898..a269c5a 100644
--- a/src/python_discovery/module_resolver.rs
+++ b/src/python_discovery/module_resolver.rs
@@ -41,6 +41,18 @@ impl ModuleResolver {
         })
     }
 
+    /// Search the directory that a test file is imported from before all others, as pytest and
+    /// the native worker do: its own directory or, in a package, the directory of the package.
+    pub fn add_import_dir_of(&mut self, test_file: &Path) {
+        let mut dir = test_file.parent();
+        while let Some(package) = dir.filter(|d| d.join("__init__.py").is_file()) {
+            dir = package.parent();
+        }
+        if let Some(dir) = dir {
+            self.search_paths.insert(0, dir.to_path_buf());
+        }
+    }
+
     /// Resolve a module path to a file and load it
     pub fn resolve_and_load(&mut self, module_path: &[String]) -> CollectionResult<&ParsedModule> {
         if !self.cache.contains_key(module_path) {
-- 
2.43.0


From 64d4df7740e9db32ae1a3b361fac1dab1f82133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 28/53] fix: do not run natively what lies in directories that
 are not collected

---
 src/native_runner.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 4469ff0..5e419f5 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -1,5 +1,6 @@
 //! Native test runner that executes tests via Python workers.
 
+use crate::collection::config::CollectionConfig;
 use crate::collection::glob_match;
 use serde::Deserialize;
 use std::fs::File;
@@ -381,6 +382,9 @@ fn is_test_file(path: &Path, patterns: &[String]) -> bool {
 }
 
 fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
+    // Directories whose tests are not collected must not be run either
+    let norecursedirs = CollectionConfig::default().norecursedirs;
+
     WalkDir::new(dir)
         .into_iter()
         .filter_entry(|e| {
@@ -388,7 +392,11 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
             e.depth() == 0
                 || e.file_name()
                     .to_str()
-                    .map(|n| !is_hidden_or_ignored(n))
+                    .map(|n| {
+                        !is_hidden_or_ignored(n)
+                            && !(e.file_type().is_dir()
+                                && norecursedirs.iter().any(|p| glob_match(p, n)))
+                    })
                     .unwrap_or(false)
         })
         .filter_map(|e| e.ok())
-- 
2.43.0


From 592560fc872d0626ca705de3f6fdb74efe620a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 29/53] fix: run natively the configured testpaths, which are
 what is collected

---
 src/pyo3.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index 4848a90..f14f321 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -232,8 +232,19 @@ fn main_cli_with_args(py: Python, argv: Vec<String>) {
                 pytest_config.python_functions
             };
 
+            // Without paths, run what was collected: the configured testpaths
+            let paths = if args.files.is_empty() {
+                pytest_config
+                    .testpaths
+                    .iter()
+                    .map(|p| p.to_string_lossy().into_owned())
+                    .collect()
+            } else {
+                args.files
+            };
+
             // For execution, still use file-based collection (worker handles discovery)
-            let test_files = collect_test_files(&rootpath, &args.files, &python_files);
+            let test_files = collect_test_files(&rootpath, &paths, &python_files);
 
             let config = NativeRunnerConfig {
                 python_executable,
-- 
2.43.0


From 1bbf114484fd69e1058c6807240b8b711db55476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 30/53] fix: give parametrized tests the ids that pytest gives
 them, or none

---
 src/python_discovery/cases.rs             | 256 +++++++++++++++++++++-
 src/python_discovery/constant_resolver.rs |  74 ++++++-
 2 files changed, 325 insertions(+), 5 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index bf73bfc..385b53e 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -3,7 +3,9 @@
 //! This module extracts test case information from decorator AST nodes and expands
 //! parametrized tests into individual test cases during collection.
 
-use ruff_python_ast::{Decorator, Expr, ExprAttribute, ExprList, ExprName, ExprTuple, Keyword};
+use ruff_python_ast::{
+    Arguments, Decorator, Expr, ExprAttribute, ExprList, ExprName, ExprTuple, Keyword, UnaryOp,
+};
 
 use super::constant_resolver::ConstantResolver;
 
@@ -221,6 +223,13 @@ fn parse_single_decorator(
         return DecoratorParseResult::NotCasesDecorator;
     }
 
+    if is_parametrize_call(&call.func) {
+        return match parse_parametrize(&call.arguments, resolver) {
+            Ok(spec) => DecoratorParseResult::CasesSpec(spec),
+            Err(reason) => DecoratorParseResult::CannotExpand(reason),
+        };
+    }
+
     if call.arguments.args.len() < 2 {
         return DecoratorParseResult::CannotExpand(CannotExpandReason::UnsupportedExpression(
             "missing required arguments".to_string(),
@@ -284,6 +293,230 @@ fn is_cases_or_parametrize_call(func: &Expr) -> bool {
         || (module == "pytest" && decorator_name == "parametrize")
 }
 
+/// Check if a recognized call func is `pytest.mark.parametrize`.
+fn is_parametrize_call(func: &Expr) -> bool {
+    matches!(func, Expr::Attribute(attr) if attr.attr.as_str() == "parametrize")
+}
+
+/// Parse the arguments of `pytest.mark.parametrize`.
+///
+/// The IDs have to be those that pytest generates, because it is given them to select the test
+/// cases. Where they cannot be told, it has to be given the base test name.
+fn parse_parametrize(
+    arguments: &Arguments,
+    resolver: Option<&ConstantResolver>,
+) -> Result<CasesSpec, CannotExpandReason> {
+    let [argnames_expr, argvalues_expr] = &arguments.args[..] else {
+        return Err(CannotExpandReason::UnsupportedExpression(
+            "argnames and argvalues must be the positional arguments".to_string(),
+        ));
+    };
+    let argnames = extract_argnames(argnames_expr)?;
+    // With one name in a string, each entry is the value, not a tuple of values
+    let single = argnames.len() == 1 && matches!(argnames_expr, Expr::StringLiteral(_));
+
+    let mut argvalues = Vec::new();
+    let mut value_ids = Vec::new();
+    match argvalues_expr {
+        Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. }) => {
+            for (idx, elt) in elts.iter().enumerate() {
+                value_ids.push(pytest_entry_id(elt, resolver, &argnames, single, idx)?);
+                argvalues.push(LiteralValue::Opaque);
+            }
+        }
+        _ => {
+            // A constant, or an error that says why not
+            let (values, _) = extract_argvalues(argvalues_expr, resolver, &argnames)?;
+            for (idx, value) in values.into_iter().enumerate() {
+                value_ids.push(pytest_constant_entry_id(&value, &argnames, single, idx)?);
+                argvalues.push(value);
+            }
+        }
+    }
+
+    for keyword in arguments.keywords.iter() {
+        if keyword
+            .arg
+            .as_ref()
+            .is_some_and(|arg| arg.as_str() == "ids")
+        {
+            override_pytest_ids(&keyword.value, resolver, &mut value_ids)?;
+        }
+    }
+
+    let mut unique = std::collections::HashSet::new();
+    if !value_ids.iter().all(|id| unique.insert(id)) {
+        return Err(CannotExpandReason::UnsupportedExpression(
+            "several cases with the same ID".to_string(),
+        ));
+    }
+
+    Ok(CasesSpec {
+        argnames,
+        argvalues,
+        value_ids,
+        ids: None,
+    })
+}
+
+/// The ID that pytest generates for an entry of the argvalues.
+fn pytest_entry_id(
+    expr: &Expr,
+    resolver: Option<&ConstantResolver>,
+    argnames: &[String],
+    single: bool,
+    idx: usize,
+) -> Result<String, CannotExpandReason> {
+    if single {
+        return pytest_value_id(expr, resolver, &argnames[0], idx);
+    }
+    match expr {
+        Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. })
+            if elts.len() == argnames.len() =>
+        {
+            let ids: Result<Vec<String>, CannotExpandReason> = elts
+                .iter()
+                .zip(argnames)
+                .map(|(elt, argname)| pytest_value_id(elt, resolver, argname, idx))
+                .collect();
+            Ok(ids?.join("-"))
+        }
+        Expr::Name(_) | Expr::Attribute(_) => match resolver.and_then(|r| r.resolve(expr)) {
+            Some((value, _)) => pytest_constant_entry_id(&value, argnames, single, idx),
+            None => Err(unsupported_value(expr)),
+        },
+        _ => Err(unsupported_value(expr)),
+    }
+}
+
+/// The ID that pytest generates for an entry of the argvalues that is a constant.
+fn pytest_constant_entry_id(
+    value: &LiteralValue,
+    argnames: &[String],
+    single: bool,
+    idx: usize,
+) -> Result<String, CannotExpandReason> {
+    match value {
+        value if single => Ok(pytest_constant_id(value, &argnames[0], idx)),
+        LiteralValue::Sequence(values) if values.len() == argnames.len() => {
+            let ids: Vec<String> = values
+                .iter()
+                .zip(argnames)
+                .map(|(value, argname)| pytest_constant_id(value, argname, idx))
+                .collect();
+            Ok(ids.join("-"))
+        }
+        _ => Err(CannotExpandReason::UnsupportedExpression(
+            "wrong number of values".to_string(),
+        )),
+    }
+}
+
+/// The ID that pytest generates for a constant: its text or, for a container, its position.
+fn pytest_constant_id(value: &LiteralValue, argname: &str, idx: usize) -> String {
+    match value {
+        LiteralValue::Sequence(_) | LiteralValue::Opaque => format!("{}{}", argname, idx),
+        value => literal_to_id_string(value),
+    }
+}
+
+/// The ID that pytest generates for a value, given as an expression.
+fn pytest_value_id(
+    expr: &Expr,
+    resolver: Option<&ConstantResolver>,
+    argname: &str,
+    idx: usize,
+) -> Result<String, CannotExpandReason> {
+    match expr {
+        Expr::NumberLiteral(_)
+        | Expr::StringLiteral(_)
+        | Expr::BooleanLiteral(_)
+        | Expr::NoneLiteral(_) => Ok(extract_literal(expr, resolver)?.1),
+        Expr::UnaryOp(unary) if matches!(unary.operand.as_ref(), Expr::NumberLiteral(_)) => {
+            let (value, id) = extract_literal(&unary.operand, resolver)?;
+            match unary.op {
+                UnaryOp::USub if value == LiteralValue::Int(0) => Ok(id),
+                UnaryOp::USub => Ok(format!("-{}", id)),
+                UnaryOp::UAdd => Ok(id),
+                _ => Err(unsupported_value(expr)),
+            }
+        }
+        // Containers have no text, pytest uses their position
+        Expr::List(_) | Expr::Tuple(_) | Expr::Dict(_) | Expr::Set(_) => {
+            Ok(format!("{}{}", argname, idx))
+        }
+        // Neither have instances of ordinary classes
+        Expr::Call(call) if resolver.is_some_and(|r| r.is_plain_class(&call.func)) => {
+            Ok(format!("{}{}", argname, idx))
+        }
+        Expr::Name(_) | Expr::Attribute(_) => {
+            let Some((resolver, (value, path))) =
+                resolver.and_then(|r| r.resolve(expr).map(|resolved| (r, resolved)))
+            else {
+                return Err(unsupported_value(expr));
+            };
+            if resolver.is_enum_member(expr) {
+                Ok(path.join("."))
+            } else if resolver.is_plain_constant(expr) {
+                Ok(pytest_constant_id(&value, argname, idx))
+            } else {
+                Err(unsupported_value(expr))
+            }
+        }
+        _ => Err(unsupported_value(expr)),
+    }
+}
+
+/// Why the ID of a value cannot be told.
+fn unsupported_value(expr: &Expr) -> CannotExpandReason {
+    match expr {
+        Expr::Name(name) => CannotExpandReason::VariableReference(name.id.to_string()),
+        Expr::Call(call) => CannotExpandReason::FunctionCall(get_call_name(&call.func)),
+        Expr::ListComp(_) | Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
+            CannotExpandReason::Comprehension
+        }
+        _ => CannotExpandReason::UnsupportedExpression("value without a static ID".to_string()),
+    }
+}
+
+/// Replace the generated IDs with those given by the `ids` argument of `pytest.mark.parametrize`.
+fn override_pytest_ids(
+    expr: &Expr,
+    resolver: Option<&ConstantResolver>,
+    value_ids: &mut [String],
+) -> Result<(), CannotExpandReason> {
+    let ids: Vec<LiteralValue> = match expr {
+        Expr::NoneLiteral(_) => return Ok(()),
+        Expr::List(ExprList { elts, .. }) | Expr::Tuple(ExprTuple { elts, .. }) => elts
+            .iter()
+            .map(|elt| extract_literal(elt, None).map(|(value, _)| value))
+            .collect::<Result<_, _>>()?,
+        _ => match resolver.and_then(|r| r.resolve(expr)) {
+            Some((LiteralValue::Sequence(ids), _)) => ids,
+            _ => return Err(unsupported_value(expr)),
+        },
+    };
+
+    if ids.len() != value_ids.len() {
+        return Err(CannotExpandReason::UnsupportedExpression(
+            "wrong number of ids".to_string(),
+        ));
+    }
+    for (value_id, id) in value_ids.iter_mut().zip(&ids) {
+        match id {
+            // pytest generates this one
+            LiteralValue::None => {}
+            LiteralValue::Sequence(_) | LiteralValue::Opaque => {
+                return Err(CannotExpandReason::UnsupportedExpression(
+                    "ids that are not literals".to_string(),
+                ));
+            }
+            id => *value_id = literal_to_id_string(id),
+        }
+    }
+    Ok(())
+}
+
 /// Extract argument names from the first decorator argument.
 fn extract_argnames(expr: &Expr) -> Result<Vec<String>, CannotExpandReason> {
     match expr {
@@ -561,7 +794,7 @@ fn extract_ids_kwarg(
 pub fn literal_to_id_string(value: &LiteralValue) -> String {
     match value {
         LiteralValue::Int(i) => i.to_string(),
-        LiteralValue::Float(f) => f.to_string(),
+        LiteralValue::Float(f) => float_to_id_string(*f),
         LiteralValue::String(s) => ascii_escape_string(s),
         LiteralValue::Bool(b) => if *b { "True" } else { "False" }.to_string(),
         LiteralValue::None => "None".to_string(),
@@ -574,6 +807,21 @@ pub fn literal_to_id_string(value: &LiteralValue) -> String {
     }
 }
 
+/// Convert a float to the text Python gives it, e.g., `1.0` or `1e-05`.
+fn float_to_id_string(f: f64) -> String {
+    let text = format!("{:?}", f);
+    match text.split_once('e') {
+        Some((mantissa, exponent)) => {
+            let (sign, digits) = match exponent.strip_prefix('-') {
+                Some(digits) => ('-', digits),
+                None => ('+', exponent),
+            };
+            format!("{}e{}{:0>2}", mantissa, sign, digits)
+        }
+        None => text,
+    }
+}
+
 /// Escape a string for use in test IDs.
 ///
 /// Escapes backslashes, control characters, and non-ASCII characters.
@@ -591,7 +839,9 @@ fn ascii_escape_string(s: &str) -> String {
             c if c.is_ascii() => result.push(c),
             c => {
                 let code = c as u32;
-                if code <= 0xFFFF {
+                if code <= 0xFF {
+                    result.push_str(&format!("\\x{:02x}", code));
+                } else if code <= 0xFFFF {
                     result.push_str(&format!("\\u{:04x}", code));
                 } else {
                     result.push_str(&format!("\\U{:08x}", code));
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index e497c17..3404f8a 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -17,6 +17,10 @@ pub struct ConstantScope {
     pub constants: HashMap<String, LiteralValue>,
     /// Nested class scopes.
     pub children: HashMap<String, ConstantScope>,
+    /// For a class body: whether the class has no base classes.
+    pub is_plain_class: bool,
+    /// For a class body: whether the class is an `Enum`, without other bases or its own text.
+    pub is_plain_enum: bool,
 }
 
 impl ConstantScope {
@@ -42,7 +46,11 @@ impl ConstantScope {
                     }
                 }
                 Stmt::ClassDef(class_def) => {
-                    let child = Self::from_statements(&class_def.body);
+                    let mut child = Self::from_statements(&class_def.body);
+                    let bases = class_def.arguments.as_ref().map(|a| &a.args[..]);
+                    child.is_plain_class = bases.is_none_or(|b| b.is_empty());
+                    child.is_plain_enum =
+                        is_enum_base(bases.unwrap_or_default()) && !defines_str(&class_def.body);
                     scope.children.insert(class_def.name.to_string(), child);
                 }
                 _ => {}
@@ -52,6 +60,12 @@ impl ConstantScope {
         scope
     }
 
+    /// The class scope at a path like `["Outer", "Inner"]`.
+    fn class_at(&self, path: &[String]) -> Option<&ConstantScope> {
+        path.iter()
+            .try_fold(self, |scope, name| scope.children.get(name))
+    }
+
     /// Resolve a path like `["Outer", "Inner", "X"]` to a value.
     pub fn resolve_path(&self, path: &[&str]) -> Option<LiteralValue> {
         match path {
@@ -87,6 +101,43 @@ impl ConstantResolver {
         Some((value, path))
     }
 
+    /// Whether an expression names a class of this module that has no base classes.
+    pub fn is_plain_class(&self, expr: &Expr) -> bool {
+        expr_to_path(expr)
+            .and_then(|path| self.root.class_at(&path).map(|class| class.is_plain_class))
+            .unwrap_or(false)
+    }
+
+    /// Whether an expression names a member of a top-level enum of this module that is not an
+    /// alias of another member. The text of such a member is its dotted path.
+    pub fn is_enum_member(&self, expr: &Expr) -> bool {
+        let path = expr_to_path(expr).unwrap_or_default();
+        let [class_name, name] = &path[..] else {
+            return false;
+        };
+        let Some(class) = self.root.children.get(class_name) else {
+            return false;
+        };
+        class.is_plain_enum
+            && class
+                .constants
+                .get(name)
+                .is_some_and(|value| class.constants.values().filter(|v| *v == value).count() == 1)
+    }
+
+    /// Whether an expression names a constant of this module or of a class without base classes.
+    pub fn is_plain_constant(&self, expr: &Expr) -> bool {
+        let path = expr_to_path(expr).unwrap_or_default();
+        match path.split_last() {
+            Some((_, [])) => true,
+            Some((_, class_path)) => self
+                .root
+                .class_at(class_path)
+                .is_some_and(|class| class.is_plain_class),
+            None => false,
+        }
+    }
+
     /// Get the root scope for testing.
     #[cfg(test)]
     pub fn root(&self) -> &ConstantScope {
@@ -94,6 +145,22 @@ impl ConstantResolver {
     }
 }
 
+/// Whether the base classes of a class are just `Enum`.
+fn is_enum_base(bases: &[Expr]) -> bool {
+    match bases {
+        [base] => {
+            expr_to_path(base).is_some_and(|path| path == ["Enum"] || path == ["enum", "Enum"])
+        }
+        _ => false,
+    }
+}
+
+/// Whether a class body defines the text of instances.
+fn defines_str(body: &[Stmt]) -> bool {
+    body.iter()
+        .any(|stmt| matches!(stmt, Stmt::FunctionDef(f) if f.name.as_str() == "__str__"))
+}
+
 /// Convert an attribute chain to a path: `a.b.c` -> `["a", "b", "c"]`.
 fn expr_to_path(expr: &Expr) -> Option<Vec<String>> {
     match expr {
@@ -115,7 +182,10 @@ fn try_extract_literal(expr: &Expr) -> Option<LiteralValue> {
         Expr::NumberLiteral(num) => {
             use ruff_python_ast::Number;
             match &num.value {
-                Number::Int(i) => Some(LiteralValue::Int(i.as_i64().unwrap_or(0))),
+                Number::Int(i) => Some(match i.as_i64() {
+                    Some(v) => LiteralValue::Int(v),
+                    None => LiteralValue::String(i.to_string()),
+                }),
                 Number::Float(f) => Some(LiteralValue::Float(*f)),
                 Number::Complex { .. } => None,
             }
-- 
2.43.0


From 628a772c1c7e9c5a7cd35b44d3101f0c809613b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 31/53] fix: do not expand cases that decorators of base
 classes or unpacking change

---
 src/python_discovery/cases.rs             |  4 ++++
 src/python_discovery/semantic_analyzer.rs | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index 385b53e..b56c45c 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -745,6 +745,10 @@ fn extract_literal(
         Expr::ListComp(_) | Expr::SetComp(_) | Expr::DictComp(_) | Expr::Generator(_) => {
             Err(CannotExpandReason::Comprehension)
         }
+        // Neither can unpacked values
+        Expr::Starred(_) => Err(CannotExpandReason::UnsupportedExpression(
+            "unpacked values".to_string(),
+        )),
         // Other expressions - treat as opaque if we can count them
         _ => Ok((LiteralValue::Opaque, String::new())),
     }
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 13efdc6..6bb267d 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -12,7 +12,7 @@ use crate::collection::error::{CollectionError, CollectionResult, CollectionWarn
 use crate::python_discovery::{
     cases::{
         combine_and_expand_specs, parse_decorators_for_cases, parse_decorators_to_specs,
-        MethodCasesInfo,
+        CannotExpandReason, MethodCasesInfo,
     },
     constant_resolver::ConstantResolver,
     discovery::{TestDiscoveryConfig, TestInfo},
@@ -465,6 +465,18 @@ impl SemanticTestDiscovery {
             }
         }
 
+        // pytest applies the decorators of the base classes to the child class as well
+        let class_specs = if lineage
+            .iter()
+            .all(|(_, info)| matches!(info.class_specs, MethodCasesInfo::NotDecorated))
+        {
+            class_specs
+        } else {
+            MethodCasesInfo::CannotExpand(CannotExpandReason::UnsupportedExpression(
+                "decorator of a base class".to_string(),
+            ))
+        };
+
         // Combine CHILD class specs with PARENT method specs
         // This is the key fix: inherited methods get the child's class decorators
         for method in Self::inherited_methods(&lineage) {
-- 
2.43.0


From 8134f9cce48a6666aef39dbd3693f47abb6c5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 32/53] fix: give node ids the same path however it was spelled

---
 src/collection/nodes.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 7bc1ded..4d06374 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -48,12 +48,9 @@ impl Session {
     fn resolve_args(&self, args: &[String]) -> Vec<PathBuf> {
         args.iter()
             .map(|arg| {
-                let path = PathBuf::from(arg);
-                if path.is_absolute() {
-                    path
-                } else {
-                    self.rootpath.join(arg)
-                }
+                // Spelled without `.` and repeated slashes, so that node IDs are the same as for
+                // any other path to the same file
+                self.rootpath.join(arg).components().collect()
             })
             .collect()
     }
@@ -70,7 +67,7 @@ impl Session {
                 pytest_config
                     .testpaths
                     .iter()
-                    .map(|p| self.rootpath.join(p))
+                    .map(|p| self.rootpath.join(p).components().collect())
                     .collect()
             } else if self.config.testpaths.is_empty() {
                 vec![self.rootpath.clone()]
-- 
2.43.0


From 72cdaf128aa5472d184abe3674e520a27541b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 33/53] fix: collect only .py files, whatever python_files
 matches

---
 src/collection/nodes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 4d06374..1c8ef67 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -137,6 +137,11 @@ impl Session {
     }
 
     pub fn is_python_file(&self, path: &Path) -> bool {
+        // Like pytest and the native runner, whatever the patterns
+        if path.extension() != Some(std::ffi::OsStr::new("py")) {
+            return false;
+        }
+
         let filename = path.file_name().and_then(|n| n.to_str()).unwrap_or("");
 
         for pattern in &self.config.python_files {
-- 
2.43.0


From 9c199e7af557c9dd9698b87bd6811580ee55a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 34/53] fix: heed the base classes and __init__ of classes that
 are not test classes

---
 src/python_discovery/semantic_analyzer.rs | 38 +++++++++++++----------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 6bb267d..8546087 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -298,25 +298,29 @@ impl SemanticTestDiscovery {
             if let Stmt::ClassDef(class_def) = stmt {
                 let class_name = class_def.name.as_str();
 
-                if self.is_test_class(class_name) {
-                    let has_init = self.class_has_init(class_def);
+                let has_init = self.class_has_init(class_def);
+                let base_classes = self.collect_base_class_names(class_def, module_path, imports);
+                // Methods of a class that is not a test class are not tests, but it may have an
+                // `__init__` and pass on the tests of its own bases
+                let (test_methods, base_classes) = if self.is_test_class(class_name) {
                     let test_methods = self.collect_test_methods(class_def, resolver);
-                    let class_specs =
-                        parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
-                    let base_classes =
-                        self.collect_base_class_names(class_def, module_path, imports)?;
-
-                    let info = TestClassInfo {
-                        name: class_name.to_string(),
-                        has_init,
-                        test_methods,
-                        base_classes,
-                        class_specs,
-                    };
+                    (test_methods, base_classes?)
+                } else {
+                    (Vec::new(), base_classes.unwrap_or_default())
+                };
+                let class_specs =
+                    parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
+
+                let info = TestClassInfo {
+                    name: class_name.to_string(),
+                    has_init,
+                    test_methods,
+                    base_classes,
+                    class_specs,
+                };
 
-                    self.class_cache
-                        .insert((module_path.to_vec(), class_name.to_string()), info);
-                }
+                self.class_cache
+                    .insert((module_path.to_vec(), class_name.to_string()), info);
             }
         }
 
-- 
2.43.0


From 4d733eee6e3f6eeacd0c9be958ccddad0464d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 35/53] fix: look up inherited tests in Python's order

---
 src/python_discovery/semantic_analyzer.rs | 92 ++++++++++++++++-------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 8546087..19c14f4 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -74,6 +74,45 @@ pub struct TestClassInfo {
     pub class_specs: MethodCasesInfo,
 }
 
+/// A class that tests may be inherited from: its module and name, and what it defines
+type Ancestor = ((Vec<String>, String), TestClassInfo);
+
+/// Merge the lineages of the bases of a class into the order in which Python looks up attributes
+/// (C3). Each lineage starts with the base itself.
+fn merge_lineages(mut lineages: Vec<Vec<Ancestor>>) -> Vec<Ancestor> {
+    lineages.retain(|lineage| !lineage.is_empty());
+
+    // The bases themselves keep their order as well
+    let bases = lineages.iter().map(|lineage| lineage[0].clone()).collect();
+    lineages.push(bases);
+
+    let mut merged = Vec::new();
+    loop {
+        lineages.retain(|lineage| !lineage.is_empty());
+        let Some(first) = lineages.first() else {
+            return merged;
+        };
+
+        // The first class that no other lineage has after another one. Python rejects the
+        // hierarchy if there is none.
+        let next = lineages
+            .iter()
+            .map(|lineage| &lineage[0])
+            .find(|(key, _)| {
+                !lineages
+                    .iter()
+                    .any(|l| l[1..].iter().any(|(k, _)| k == key))
+            })
+            .unwrap_or(&first[0])
+            .clone();
+
+        for lineage in &mut lineages {
+            lineage.retain(|(key, _)| *key != next.0);
+        }
+        merged.push(next);
+    }
+}
+
 /// The statements of a body, without the functions and classes that it defines again later
 fn last_definitions(body: &[Stmt]) -> impl Iterator<Item = &Stmt> {
     fn name(stmt: &Stmt) -> Option<&str> {
@@ -450,7 +489,7 @@ impl SemanticTestDiscovery {
         let mut all_tests = Vec::new();
 
         // Collect inherited methods
-        let mut lineage = Vec::new();
+        let mut base_lineages = Vec::new();
         if let Some(arguments) = &class_def.arguments {
             for base_expr in arguments.args.iter() {
                 let resolved =
@@ -459,15 +498,15 @@ impl SemanticTestDiscovery {
                 // Skip unresolvable base class expressions and known stdlib modules that we
                 // can't analyze
                 if let Some(resolved) = resolved {
-                    self.collect_lineage(
+                    base_lineages.push(self.collect_lineage(
                         &resolved,
                         module_resolver,
                         &mut HashSet::new(),
-                        &mut lineage,
-                    )?;
+                    )?);
                 }
             }
         }
+        let lineage = merge_lineages(base_lineages);
 
         // pytest applies the decorators of the base classes to the child class as well
         let class_specs = if lineage
@@ -645,16 +684,16 @@ impl SemanticTestDiscovery {
         Ok(false)
     }
 
-    /// Append a base class and its ancestors to `lineage`, depth first, with cycle detection
+    /// A base class and its ancestors in the order in which Python looks up attributes, with
+    /// cycle detection
     fn collect_lineage(
         &mut self,
         resolved: &ResolvedBaseClass,
         module_resolver: &mut ModuleResolver,
         visited: &mut HashSet<(Vec<String>, String)>,
-        lineage: &mut Vec<((Vec<String>, String), TestClassInfo)>,
-    ) -> CollectionResult<()> {
+    ) -> CollectionResult<Vec<Ancestor>> {
         if self.is_stdlib_module_to_skip(&resolved.module_path) {
-            return Ok(());
+            return Ok(Vec::new());
         }
 
         // Check for cycles
@@ -673,42 +712,37 @@ impl SemanticTestDiscovery {
             self.ensure_module_loaded(&resolved.module_path, module_resolver)?;
         }
 
-        if let Some(base_info) = self.class_cache.get(&key).cloned() {
-            lineage.push((key.clone(), base_info.clone()));
-
+        let lineage = if let Some(base_info) = self.class_cache.get(&key).cloned() {
+            let mut base_lineages = Vec::new();
             for base_class in &base_info.base_classes {
-                self.collect_lineage(base_class, module_resolver, visited, lineage)?;
+                base_lineages.push(self.collect_lineage(base_class, module_resolver, visited)?);
             }
+
+            let mut lineage = vec![(key.clone(), base_info)];
+            lineage.extend(merge_lineages(base_lineages));
+            lineage
         } else if let Some(target) = self.reexports.get(&key).cloned() {
-            self.collect_lineage(&target, module_resolver, visited, lineage)?;
-        }
+            self.collect_lineage(&target, module_resolver, visited)?
+        } else {
+            Vec::new()
+        };
 
         // Remove from visited after processing to allow sibling branches in diamond
         // inheritance patterns to revisit this class without false cycle detection
         visited.remove(&key);
 
-        Ok(())
+        Ok(lineage)
     }
 
     /// The test methods a class gets from its `lineage`, each name once and from the class that
     /// Python would take it from. Methods of the remotest ancestors come first.
-    fn inherited_methods(
-        lineage: &[((Vec<String>, String), TestClassInfo)],
-    ) -> Vec<TestMethodInfo> {
-        // A class reached along several branches (a diamond) comes after all its subclasses
-        let order: Vec<&TestClassInfo> = lineage
-            .iter()
-            .enumerate()
-            .filter(|(i, (key, _))| !lineage[i + 1..].iter().any(|(later, _)| later == key))
-            .map(|(_, (_, info))| info)
-            .collect();
-
+    fn inherited_methods(lineage: &[Ancestor]) -> Vec<TestMethodInfo> {
         let mut methods = Vec::new();
-        for (i, info) in order.iter().enumerate().rev() {
+        for (i, (_, info)) in lineage.iter().enumerate().rev() {
             for method in &info.test_methods {
-                let overridden = order[..i]
+                let overridden = lineage[..i]
                     .iter()
-                    .any(|nearer| nearer.test_methods.iter().any(|m| m.name == method.name));
+                    .any(|(_, nearer)| nearer.test_methods.iter().any(|m| m.name == method.name));
                 if !overridden {
                     methods.push(method.clone());
                 }
-- 
2.43.0


From a3a471f4a4fffa74a4ebd6fc8ea427d26decaebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 36/53] fix: do not invent ids for combinations of cases that
 pytest cannot tell apart

---
 src/python_discovery/cases.rs | 46 +++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index b56c45c..f1bf0f0 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -132,11 +132,7 @@ pub fn parse_decorators_for_cases(
         }
     }
 
-    if specs.is_empty() {
-        CasesExpansion::NotDecorated
-    } else {
-        CasesExpansion::Expanded(expand_cases(&specs))
-    }
+    expand_specs(&specs)
 }
 
 /// Parse decorators into specs without expanding.
@@ -193,11 +189,26 @@ pub fn combine_and_expand_specs(
         combined_specs.extend(specs.iter().cloned());
     }
 
-    if combined_specs.is_empty() {
-        CasesExpansion::NotDecorated
-    } else {
-        CasesExpansion::Expanded(expand_cases(&combined_specs))
+    expand_specs(&combined_specs)
+}
+
+/// Expand the specs of all decorators of a test.
+fn expand_specs(specs: &[CasesSpec]) -> CasesExpansion {
+    if specs.is_empty() {
+        return CasesExpansion::NotDecorated;
+    }
+
+    // pytest does not tell combinations of stacked decorators apart whose joined IDs are equal
+    if specs.len() > 1 {
+        let mut unique = std::collections::HashSet::new();
+        if !combine_ids(specs).iter().all(|id| unique.insert(id)) {
+            return CasesExpansion::CannotExpand(CannotExpandReason::UnsupportedExpression(
+                "several cases with the same ID".to_string(),
+            ));
+        }
     }
+
+    CasesExpansion::Expanded(expand_cases(specs))
 }
 
 /// Result of parsing a single decorator.
@@ -862,6 +873,16 @@ pub fn expand_cases(specs: &[CasesSpec]) -> Vec<ExpandedCase> {
         return vec![];
     }
 
+    let ids = combine_ids(specs);
+
+    deduplicate_ids(ids)
+        .into_iter()
+        .map(|case_id| ExpandedCase { case_id })
+        .collect()
+}
+
+/// The joined IDs of all combinations of the cases of several specs.
+fn combine_ids(specs: &[CasesSpec]) -> Vec<String> {
     // Reverse specs to process innermost decorator first (bottom-to-top order)
     let expanded_specs: Vec<Vec<String>> = specs.iter().rev().map(expand_single_spec).collect();
 
@@ -878,12 +899,7 @@ pub fn expand_cases(specs: &[CasesSpec]) -> Vec<ExpandedCase> {
         result = new_result;
     }
 
-    let ids: Vec<String> = result.iter().map(|parts| parts.join("-")).collect();
-
-    deduplicate_ids(ids)
-        .into_iter()
-        .map(|case_id| ExpandedCase { case_id })
-        .collect()
+    result.iter().map(|parts| parts.join("-")).collect()
 }
 
 /// Expand a single spec into case IDs.
-- 
2.43.0


From 55ff71eb59ec28d98e9848bd523fbda526307a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 37/53] fix: do not take the first value of a constant that is
 assigned again for its value

---
 src/python_discovery/constant_resolver.rs | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index 3404f8a..fd364ce 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -31,20 +31,20 @@ impl ConstantScope {
         for stmt in stmts {
             match stmt {
                 Stmt::Assign(assign) => {
-                    if let [Expr::Name(name)] = assign.targets.as_slice() {
-                        if let Some(value) = try_extract_literal(&assign.value) {
-                            scope.constants.insert(name.id.to_string(), value);
-                        }
+                    let value = match assign.targets.as_slice() {
+                        [_] => try_extract_literal(&assign.value),
+                        _ => None,
+                    };
+                    for target in &assign.targets {
+                        scope.assign(target, value.clone());
                     }
                 }
                 Stmt::AnnAssign(ann) => {
-                    if let (Expr::Name(name), Some(value_expr)) = (ann.target.as_ref(), &ann.value)
-                    {
-                        if let Some(value) = try_extract_literal(value_expr) {
-                            scope.constants.insert(name.id.to_string(), value);
-                        }
+                    if let Some(value_expr) = &ann.value {
+                        scope.assign(&ann.target, try_extract_literal(value_expr));
                     }
                 }
+                Stmt::AugAssign(aug) => scope.assign(&aug.target, None),
                 Stmt::ClassDef(class_def) => {
                     let mut child = Self::from_statements(&class_def.body);
                     let bases = class_def.arguments.as_ref().map(|a| &a.args[..]);
@@ -60,6 +60,16 @@ impl ConstantScope {
         scope
     }
 
+    /// Record an assignment: a literal makes a name a constant, anything else makes it none.
+    fn assign(&mut self, target: &Expr, value: Option<LiteralValue>) {
+        if let Expr::Name(name) = target {
+            match value {
+                Some(value) => self.constants.insert(name.id.to_string(), value),
+                None => self.constants.remove(name.id.as_str()),
+            };
+        }
+    }
+
     /// The class scope at a path like `["Outer", "Inner"]`.
     fn class_at(&self, path: &[String]) -> Option<&ConstantScope> {
         path.iter()
-- 
2.43.0


From 0989d460baffa088ec996dc82020c42e4a82a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 38/53] fix: do not expand ids that pytest escapes again for
 the next test

---
 src/python_discovery/cases.rs             | 27 ++++++++++++++++++++++-
 src/python_discovery/semantic_analyzer.rs |  5 ++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index f1bf0f0..bcec7e5 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -54,6 +54,27 @@ pub enum MethodCasesInfo {
     CannotExpand(CannotExpandReason),
 }
 
+impl MethodCasesInfo {
+    /// The specs of decorators that several tests have in common.
+    ///
+    /// pytest keeps the IDs it generates from the `ids` argument for the next test, and escapes
+    /// them again, so that the IDs are different from test to test if there is anything to escape.
+    pub fn shared(&self) -> Self {
+        let escaped_again = |spec: &CasesSpec| {
+            let mut ids = spec.ids.iter().flatten();
+            ids.any(|id| ascii_escape_string(id) != *id)
+        };
+        match self {
+            Self::Specs(specs) if specs.iter().any(escaped_again) => {
+                Self::CannotExpand(CannotExpandReason::UnsupportedExpression(
+                    "ids that need to be escaped, for several tests".to_string(),
+                ))
+            }
+            info => info.clone(),
+        }
+    }
+}
+
 /// Reason why cases could not be statically expanded.
 #[derive(Debug, Clone)]
 pub enum CannotExpandReason {
@@ -171,6 +192,8 @@ pub fn combine_and_expand_specs(
     class_info: &MethodCasesInfo,
     method_info: &MethodCasesInfo,
 ) -> CasesExpansion {
+    let class_info = &class_info.shared();
+
     // Handle CannotExpand cases first
     if let MethodCasesInfo::CannotExpand(reason) = class_info {
         return CasesExpansion::CannotExpand(reason.clone());
@@ -345,6 +368,7 @@ fn parse_parametrize(
         }
     }
 
+    let mut has_ids = false;
     for keyword in arguments.keywords.iter() {
         if keyword
             .arg
@@ -352,6 +376,7 @@ fn parse_parametrize(
             .is_some_and(|arg| arg.as_str() == "ids")
         {
             override_pytest_ids(&keyword.value, resolver, &mut value_ids)?;
+            has_ids = true;
         }
     }
 
@@ -365,8 +390,8 @@ fn parse_parametrize(
     Ok(CasesSpec {
         argnames,
         argvalues,
+        ids: has_ids.then(|| value_ids.clone()),
         value_ids,
-        ids: None,
     })
 }
 
diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 19c14f4..30d380a 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -533,7 +533,10 @@ impl SemanticTestDiscovery {
                 line: method.line,
                 is_method: true,
                 class_name: Some(class_name.to_string()),
-                cases_expansion: combine_and_expand_specs(&class_specs, &method.method_specs),
+                cases_expansion: combine_and_expand_specs(
+                    &class_specs,
+                    &method.method_specs.shared(),
+                ),
             });
         }
 
-- 
2.43.0


From 4071336bc3f338d9ea521055d52f5cdf9386daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 39/53] fix: write large integers that are not decimal as
 Python does

---
 src/python_discovery/cases.rs             | 32 ++++++++++++++++++++++-
 src/python_discovery/constant_resolver.rs |  4 +--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/python_discovery/cases.rs b/src/python_discovery/cases.rs
index bcec7e5..0a72f9d 100644
--- a/src/python_discovery/cases.rs
+++ b/src/python_discovery/cases.rs
@@ -718,7 +718,7 @@ fn extract_literal(
                             Ok((lit, id))
                         }
                         None => {
-                            let lit = LiteralValue::String(i.to_string());
+                            let lit = LiteralValue::String(decimal_int(i.to_string()));
                             let id = literal_to_id_string(&lit);
                             Ok((lit, id))
                         }
@@ -847,6 +847,36 @@ pub fn literal_to_id_string(value: &LiteralValue) -> String {
     }
 }
 
+/// Convert the text of a large integer to decimal digits, as Python writes it.
+///
+/// The parser keeps the source text of integers that need more than 64 bits, e.g., `0xff...`.
+pub fn decimal_int(text: String) -> String {
+    let radix = match text.get(..2) {
+        Some("0x" | "0X") => 16,
+        Some("0o" | "0O") => 8,
+        Some("0b" | "0B") => 2,
+        _ => return text,
+    };
+    let mut decimal = vec![0]; // least significant digit first
+    for digit in text[2..].chars().filter_map(|c| c.to_digit(radix)) {
+        let mut carry = digit;
+        for place in decimal.iter_mut() {
+            let value = *place * radix + carry;
+            *place = value % 10;
+            carry = value / 10;
+        }
+        while carry > 0 {
+            decimal.push(carry % 10);
+            carry /= 10;
+        }
+    }
+    decimal
+        .iter()
+        .rev()
+        .map(|digit| digit.to_string())
+        .collect()
+}
+
 /// Convert a float to the text Python gives it, e.g., `1.0` or `1e-05`.
 fn float_to_id_string(f: f64) -> String {
     let text = format!("{:?}", f);
diff --git a/src/python_discovery/constant_resolver.rs b/src/python_discovery/constant_resolver.rs
index fd364ce..f68fde9 100644
--- a/src/python_discovery/constant_resolver.rs
+++ b/src/python_discovery/constant_resolver.rs
@@ -6,7 +6,7 @@
 use ruff_python_ast::{Expr, ExprAttribute, ExprName, ModModule, Stmt};
 use std::collections::HashMap;
 
-use super::cases::LiteralValue;
+use super::cases::{decimal_int, LiteralValue};
 
 /// A scope containing constants (module-level or class body).
 ///
@@ -194,7 +194,7 @@ fn try_extract_literal(expr: &Expr) -> Option<LiteralValue> {
             match &num.value {
                 Number::Int(i) => Some(match i.as_i64() {
                     Some(v) => LiteralValue::Int(v),
-                    None => LiteralValue::String(i.to_string()),
+                    None => LiteralValue::String(decimal_int(i.to_string())),
                 }),
                 Number::Float(f) => Some(LiteralValue::Float(*f)),
                 Number::Complex { .. } => None,
-- 
2.43.0


From 48e51bfa4c80697c97b98d31e27023289fd35af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 40/53] fix: native worker does not run classes that collection
 refuses for their __init__

---
 python/rtest/worker/runner.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 3b75d44..fb33dbe 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -12,7 +12,7 @@ import traceback
 import warnings
 from dataclasses import asdict, dataclass, field
 from pathlib import Path
-from types import FunctionType, MappingProxyType, ModuleType
+from types import CodeType, FunctionType, MappingProxyType, ModuleType
 from typing import Callable, Literal
 
 
@@ -81,6 +81,15 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
+def _has_init(class_obj: type, root: Path) -> bool:
+    """Whether a class of the project, or a base of it, defines a constructor; collection does not take such classes."""
+    for owner in inspect.getmro(class_obj):
+        code: object = getattr(owner.__dict__.get("__init__"), "__code__", None)
+        if isinstance(code, CodeType) and Path(code.co_filename).is_relative_to(root):
+            return True
+    return False
+
+
 def _pytest_marks(obj: object) -> list[object]:
     """Get the pytest marks of a function, or of a class and its bases, nearest first."""
     owners: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
@@ -162,6 +171,8 @@ def _discover_tests_in_module(
         elif _is_test_class(name, obj, python_classes):
             # obj is a class at this point
             class_obj: type = obj
+            if _has_init(class_obj, root.resolve()):
+                continue
             class_skip, class_skip_reason = _is_skipped(class_obj)
 
             # Walk MRO explicitly to discover inherited test methods
-- 
2.43.0


From 166b621c0b55996cf4b463f67640e27ece20e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 41/53] fix: native runner follows symbolic links as collection
 does

---
 src/native_runner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native_runner.rs b/src/native_runner.rs
index 5e419f5..d539214 100644
--- a/src/native_runner.rs
+++ b/src/native_runner.rs
@@ -385,7 +385,9 @@ fn collect_test_files_in_dir(dir: &Path, patterns: &[String]) -> Vec<PathBuf> {
     // Directories whose tests are not collected must not be run either
     let norecursedirs = CollectionConfig::default().norecursedirs;
 
+    // Symbolic links are followed, as in collection
     WalkDir::new(dir)
+        .follow_links(true)
         .into_iter()
         .filter_entry(|e| {
             // The directory to search was asked for, whatever its name is
-- 
2.43.0


From 4f45703101ed95519b892dde255a2a8609c5a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 42/53] fix: collect what the names of tests are bound to in
 the end, not fixtures, properties and other values

---
 src/python_discovery/semantic_analyzer.rs | 255 +++++++++++++++-------
 1 file changed, 180 insertions(+), 75 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 30d380a..00cccf1 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -1,6 +1,6 @@
 //! Semantic analysis for test discovery with import resolution.
 
-use ruff_python_ast::{Expr, Mod, ModModule, Stmt, StmtClassDef};
+use ruff_python_ast::{Expr, Mod, ModModule, Stmt, StmtClassDef, StmtFunctionDef};
 use ruff_python_parser::{parse, Mode, ParseOptions};
 use ruff_python_semantic::{Module as SemanticModule, ModuleKind, ModuleSource, SemanticModel};
 use ruff_python_stdlib::sys::is_known_standard_library;
@@ -11,8 +11,7 @@ use std::path::Path;
 use crate::collection::error::{CollectionError, CollectionResult, CollectionWarning};
 use crate::python_discovery::{
     cases::{
-        combine_and_expand_specs, parse_decorators_for_cases, parse_decorators_to_specs,
-        CannotExpandReason, MethodCasesInfo,
+        combine_and_expand_specs, parse_decorators_to_specs, CannotExpandReason, MethodCasesInfo,
     },
     constant_resolver::ConstantResolver,
     discovery::{TestDiscoveryConfig, TestInfo},
@@ -69,6 +68,8 @@ pub struct TestClassInfo {
     pub name: String,
     pub has_init: bool,
     pub test_methods: Vec<TestMethodInfo>,
+    /// Names of test methods that the class binds to something that is no test
+    pub hidden_methods: HashSet<String>,
     pub base_classes: Vec<ResolvedBaseClass>,
     /// Class-level decorator specs
     pub class_specs: MethodCasesInfo,
@@ -113,21 +114,122 @@ fn merge_lineages(mut lineages: Vec<Vec<Ancestor>>) -> Vec<Ancestor> {
     }
 }
 
-/// The statements of a body, without the functions and classes that it defines again later
-fn last_definitions(body: &[Stmt]) -> impl Iterator<Item = &Stmt> {
-    fn name(stmt: &Stmt) -> Option<&str> {
-        match stmt {
-            Stmt::FunctionDef(func) => Some(func.name.as_str()),
-            Stmt::ClassDef(class) => Some(class.name.as_str()),
+/// What a name is bound to when a body has been executed
+#[derive(Clone, Copy)]
+enum Binding<'a> {
+    Function(&'a StmtFunctionDef),
+    Class(&'a StmtClassDef),
+    /// Something that is neither a test nor has tests
+    Other,
+}
+
+/// Whether the decorators make something else of a function than a test: a fixture or a property
+fn is_no_test(func: &StmtFunctionDef) -> bool {
+    func.decorator_list.iter().any(|decorator| {
+        let name = match &decorator.expression {
+            Expr::Call(call) => &*call.func,
+            expr => expr,
+        };
+        let name = match name {
+            Expr::Name(name) => name.id.as_str(),
+            Expr::Attribute(attribute) => attribute.attr.as_str(),
+            _ => return false,
+        };
+        matches!(
+            name,
+            "fixture" | "yield_fixture" | "property" | "cached_property" | "setter"
+        )
+    })
+}
+
+/// The names that a body defines and what they are bound to in the end, in the order in which they
+/// got it. `outer` are the names that are defined around the body. Assignments of values that
+/// cannot be told without executing the body are left out of account.
+fn bindings<'a>(body: &'a [Stmt], outer: &[(&'a str, Binding<'a>)]) -> Vec<(&'a str, Binding<'a>)> {
+    fn assigned<'a>(
+        value: &Expr,
+        bound: &[(&'a str, Binding<'a>)],
+        outer: &[(&'a str, Binding<'a>)],
+    ) -> Option<Binding<'a>> {
+        match value {
+            Expr::Name(name) => {
+                let known = bound
+                    .iter()
+                    .chain(outer)
+                    .find(|(n, _)| *n == name.id.as_str());
+                known.map(|(_, binding)| *binding)
+            }
+            Expr::NoneLiteral(_)
+            | Expr::BooleanLiteral(_)
+            | Expr::NumberLiteral(_)
+            | Expr::UnaryOp(_)
+            | Expr::StringLiteral(_)
+            | Expr::BytesLiteral(_)
+            | Expr::List(_)
+            | Expr::Tuple(_)
+            | Expr::Dict(_)
+            | Expr::Set(_) => Some(Binding::Other),
             _ => None,
         }
     }
 
-    body.iter().enumerate().filter_map(move |(i, stmt)| {
-        let redefined =
-            name(stmt).is_some_and(|n| body[i + 1..].iter().any(|s| name(s) == Some(n)));
-        (!redefined).then_some(stmt)
-    })
+    let mut bound: Vec<(&'a str, Binding<'a>)> = Vec::new();
+    let bind = |bound: &mut Vec<(&'a str, Binding<'a>)>, name, binding| {
+        bound.retain(|(n, _)| *n != name);
+        bound.push((name, binding));
+    };
+    for stmt in body {
+        match stmt {
+            Stmt::FunctionDef(func) if is_no_test(func) => {
+                bind(&mut bound, func.name.as_str(), Binding::Other);
+            }
+            Stmt::FunctionDef(func) => {
+                bind(&mut bound, func.name.as_str(), Binding::Function(func));
+            }
+            Stmt::ClassDef(class) => bind(&mut bound, class.name.as_str(), Binding::Class(class)),
+            Stmt::Assign(assign) => {
+                if let Some(binding) = assigned(&assign.value, &bound, outer) {
+                    for target in &assign.targets {
+                        if let Expr::Name(name) = target {
+                            bind(&mut bound, name.id.as_str(), binding);
+                        }
+                    }
+                }
+            }
+            Stmt::AnnAssign(assign) => {
+                if let (Expr::Name(name), Some(value)) = (&*assign.target, &assign.value) {
+                    if let Some(binding) = assigned(value, &bound, outer) {
+                        bind(&mut bound, name.id.as_str(), binding);
+                    }
+                }
+            }
+            Stmt::Delete(delete) => {
+                for target in &delete.targets {
+                    if let Expr::Name(name) = target {
+                        bound.retain(|(n, _)| *n != name.id.as_str());
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+    bound
+}
+
+/// The case decorators of a function that is defined in a body with these `bindings`
+fn function_specs(
+    func: &StmtFunctionDef,
+    bindings: &[(&str, Binding)],
+    resolver: &ConstantResolver,
+) -> MethodCasesInfo {
+    let specs = parse_decorators_to_specs(&func.decorator_list, Some(resolver));
+    let is_func =
+        |binding: &Binding| matches!(binding, Binding::Function(f) if std::ptr::eq(*f, func));
+    if bindings.iter().filter(|(_, b)| is_func(b)).count() == 1 {
+        specs
+    } else {
+        specs.shared()
+    }
 }
 
 /// Enhanced test discovery with semantic analysis
@@ -203,13 +305,15 @@ impl SemanticTestDiscovery {
         let mut all_tests = Vec::new();
 
         // Collect module-level test functions
-        for stmt in last_definitions(&ast_module.body) {
-            if let Stmt::FunctionDef(func) = stmt {
-                if self.is_test_function(func.name.as_str()) {
+        let module_bindings = bindings(&ast_module.body, &[]);
+        for (name, binding) in &module_bindings {
+            if let Binding::Function(func) = binding {
+                if self.is_test_function(name) {
+                    let specs = function_specs(func, &module_bindings, &resolver);
                     let cases_expansion =
-                        parse_decorators_for_cases(&func.decorator_list, Some(&resolver));
+                        combine_and_expand_specs(&MethodCasesInfo::NotDecorated, &specs);
                     all_tests.push(TestInfo {
-                        name: func.name.to_string(),
+                        name: name.to_string(),
                         line: func.range().start().to_u32() as usize,
                         is_method: false,
                         class_name: None,
@@ -220,10 +324,15 @@ impl SemanticTestDiscovery {
         }
 
         // Collect test methods from classes
-        for stmt in last_definitions(&ast_module.body) {
-            if let Stmt::ClassDef(class_def) = stmt {
+        for (name, binding) in &module_bindings {
+            if let Binding::Class(class_def) = binding {
+                // Classes under a second name are not supported
+                if class_def.name.as_str() != *name {
+                    continue;
+                }
                 if let Some(tests) = self.collect_class_tests(
                     class_def,
+                    &module_bindings,
                     &module_path,
                     &imports,
                     &semantic,
@@ -333,6 +442,7 @@ impl SemanticTestDiscovery {
         imports: &HashMap<String, ImportInfo>,
         resolver: &ConstantResolver,
     ) -> CollectionResult<()> {
+        let module_bindings = bindings(&module.body, &[]);
         for stmt in &module.body {
             if let Stmt::ClassDef(class_def) = stmt {
                 let class_name = class_def.name.as_str();
@@ -341,11 +451,13 @@ impl SemanticTestDiscovery {
                 let base_classes = self.collect_base_class_names(class_def, module_path, imports);
                 // Methods of a class that is not a test class are not tests, but it may have an
                 // `__init__` and pass on the tests of its own bases
-                let (test_methods, base_classes) = if self.is_test_class(class_name) {
-                    let test_methods = self.collect_test_methods(class_def, resolver);
-                    (test_methods, base_classes?)
+                let (mut test_methods, hidden_methods) =
+                    self.collect_test_methods(class_def, &module_bindings, resolver);
+                let base_classes = if self.is_test_class(class_name) {
+                    base_classes?
                 } else {
-                    (Vec::new(), base_classes.unwrap_or_default())
+                    test_methods.clear();
+                    base_classes.unwrap_or_default()
                 };
                 let class_specs =
                     parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
@@ -354,6 +466,7 @@ impl SemanticTestDiscovery {
                     name: class_name.to_string(),
                     has_init,
                     test_methods,
+                    hidden_methods,
                     base_classes,
                     class_specs,
                 };
@@ -366,34 +479,38 @@ impl SemanticTestDiscovery {
         Ok(())
     }
 
-    /// Collect test methods from a class (method-level specs only, not expanded).
+    /// Collect test methods from a class (method-level specs only, not expanded), and the names of
+    /// test methods that the class binds to something else, so that they are not inherited.
     ///
     /// This stores only method-level decorator specs, allowing them to be combined
     /// with child class decorators during inheritance resolution.
     fn collect_test_methods(
         &self,
         class_def: &StmtClassDef,
+        module_bindings: &[(&str, Binding)],
         resolver: &ConstantResolver,
-    ) -> Vec<TestMethodInfo> {
+    ) -> (Vec<TestMethodInfo>, HashSet<String>) {
         let mut methods = Vec::new();
+        let mut hidden = HashSet::new();
 
-        for stmt in last_definitions(&class_def.body) {
-            if let Stmt::FunctionDef(func) = stmt {
-                let method_name = func.name.as_str();
-                if self.is_test_function(method_name) {
+        let class_bindings = bindings(&class_def.body, module_bindings);
+        for (name, binding) in &class_bindings {
+            if !self.is_test_function(name) {
+                continue;
+            }
+            if let Binding::Function(func) = binding {
+                methods.push(TestMethodInfo {
+                    name: name.to_string(),
+                    line: func.range().start().to_u32() as usize,
                     // Store only method-level specs (not combined with class)
-                    let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
-                    methods.push(TestMethodInfo {
-                        name: method_name.to_string(),
-                        line: func.range().start().to_u32() as usize,
-                        method_specs,
-                    });
-                }
+                    method_specs: function_specs(func, &class_bindings, resolver),
+                });
+            } else {
+                hidden.insert(name.to_string());
             }
         }
 
-        methods
+        (methods, hidden)
     }
 
     /// Collect base class names from a class definition
@@ -437,6 +554,7 @@ impl SemanticTestDiscovery {
     fn collect_class_tests(
         &mut self,
         class_def: &StmtClassDef,
+        module_bindings: &[(&str, Binding)],
         current_module_path: &[String],
         imports: &HashMap<String, ImportInfo>,
         semantic: &SemanticModel,
@@ -472,19 +590,8 @@ impl SemanticTestDiscovery {
         let class_specs = parse_decorators_to_specs(&class_def.decorator_list, Some(resolver));
 
         // Collect methods defined directly in this class (to filter inherited methods)
-        let own_method_names: std::collections::HashSet<String> = class_def
-            .body
-            .iter()
-            .filter_map(|stmt| {
-                if let Stmt::FunctionDef(func) = stmt {
-                    let name = func.name.as_str();
-                    if self.is_test_function(name) {
-                        return Some(name.to_string());
-                    }
-                }
-                None
-            })
-            .collect();
+        let (own_methods, hidden_methods) =
+            self.collect_test_methods(class_def, module_bindings, resolver);
 
         let mut all_tests = Vec::new();
 
@@ -524,7 +631,8 @@ impl SemanticTestDiscovery {
         // This is the key fix: inherited methods get the child's class decorators
         for method in Self::inherited_methods(&lineage) {
             // Skip if this method is overridden in the child class
-            if own_method_names.contains(&method.name) {
+            let overridden = own_methods.iter().any(|own| own.name == method.name);
+            if overridden || hidden_methods.contains(&method.name) {
                 continue;
             }
 
@@ -541,23 +649,14 @@ impl SemanticTestDiscovery {
         }
 
         // Collect methods defined in this class
-        for stmt in last_definitions(&class_def.body) {
-            if let Stmt::FunctionDef(func) = stmt {
-                let method_name = func.name.as_str();
-                if self.is_test_function(method_name) {
-                    let method_specs =
-                        parse_decorators_to_specs(&func.decorator_list, Some(resolver));
-                    let cases_expansion = combine_and_expand_specs(&class_specs, &method_specs);
-
-                    all_tests.push(TestInfo {
-                        name: method_name.to_string(),
-                        line: func.range().start().to_u32() as usize,
-                        is_method: true,
-                        class_name: Some(class_name.to_string()),
-                        cases_expansion,
-                    });
-                }
-            }
+        for method in own_methods {
+            all_tests.push(TestInfo {
+                cases_expansion: combine_and_expand_specs(&class_specs, &method.method_specs),
+                name: method.name,
+                line: method.line,
+                is_method: true,
+                class_name: Some(class_name.to_string()),
+            });
         }
 
         Ok(Some(all_tests))
@@ -743,9 +842,10 @@ impl SemanticTestDiscovery {
         let mut methods = Vec::new();
         for (i, (_, info)) in lineage.iter().enumerate().rev() {
             for method in &info.test_methods {
-                let overridden = lineage[..i]
-                    .iter()
-                    .any(|(_, nearer)| nearer.test_methods.iter().any(|m| m.name == method.name));
+                let overridden = lineage[..i].iter().any(|(_, nearer)| {
+                    nearer.hidden_methods.contains(&method.name)
+                        || nearer.test_methods.iter().any(|m| m.name == method.name)
+                });
                 if !overridden {
                     methods.push(method.clone());
                 }
@@ -778,6 +878,7 @@ impl SemanticTestDiscovery {
                             name: String::new(),
                             has_init: false,
                             test_methods: vec![],
+                            hidden_methods: HashSet::new(),
                             base_classes: vec![],
                             class_specs: MethodCasesInfo::NotDecorated,
                         },
@@ -819,6 +920,7 @@ impl SemanticTestDiscovery {
             }
 
             // Extract test class information without storing the module
+            let module_bindings = bindings(&parsed_module.module.body, &[]);
             for stmt in &parsed_module.module.body {
                 if let Stmt::ClassDef(class_def) = stmt {
                     let class_name = class_def.name.as_str();
@@ -826,7 +928,8 @@ impl SemanticTestDiscovery {
                     // Always collect class info for external modules, even if they don't match test patterns
                     // They might be used as base classes
                     let has_init = self.class_has_init(class_def);
-                    let test_methods = self.collect_test_methods(class_def, &external_resolver);
+                    let (test_methods, hidden_methods) =
+                        self.collect_test_methods(class_def, &module_bindings, &external_resolver);
                     let class_specs = parse_decorators_to_specs(
                         &class_def.decorator_list,
                         Some(&external_resolver),
@@ -838,6 +941,7 @@ impl SemanticTestDiscovery {
                         name: class_name.to_string(),
                         has_init,
                         test_methods,
+                        hidden_methods,
                         base_classes,
                         class_specs,
                     };
@@ -855,6 +959,7 @@ impl SemanticTestDiscovery {
                 name: String::new(),
                 has_init: false,
                 test_methods: vec![],
+                hidden_methods: HashSet::new(),
                 base_classes: vec![],
                 class_specs: MethodCasesInfo::NotDecorated,
             },
-- 
2.43.0


From 0d0f7e742515975e24d67d5333edbeadd055b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 43/53] fix: native worker runs class methods and wrapped
 functions as collection lists them, and no fixtures

---
 python/rtest/worker/runner.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index fb33dbe..79d2cb0 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -67,11 +67,23 @@ def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
     return module
 
 
+def _is_test(obj: object) -> bool:
+    """Whether an object is a function, a class method, or something that wraps a function, and is not a fixture."""
+    if inspect.isclass(obj) or not callable(obj):
+        return False
+    try:
+        if not (inspect.ismethod(obj) or inspect.isfunction(inspect.unwrap(obj))):
+            return False
+        # The names that pytest uses for it up to and from version 8.4
+        return not (hasattr(obj, "_pytestfixturefunction") or hasattr(obj, "_fixture_function_marker"))
+    except Exception:
+        # Whatever refuses to be looked at is not a function
+        return False
+
+
 def _is_test_function(name: str, obj: object, patterns: list[str]) -> bool:
     """Check if an object is a test function based on patterns."""
-    if not inspect.isfunction(obj):
-        return False
-    return any(fnmatch.fnmatch(name, p) for p in patterns)
+    return any(fnmatch.fnmatch(name, p) for p in patterns) and _is_test(obj)
 
 
 def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
@@ -151,7 +163,10 @@ def _discover_tests_in_module(
     test_cases: list[TestCase] = []
 
     for name, obj in inspect.getmembers(module):
-        if _is_test_function(name, obj, python_functions):
+        is_function = _is_test_function(name, obj, python_functions)
+        if not is_function and not _is_test_class(name, obj, python_classes):
+            continue
+        if is_function:
             func_obj: FunctionType = obj  # type: ignore[assignment]
             func_skip, func_skip_reason = _is_skipped(func_obj)
 
@@ -168,7 +183,7 @@ def _discover_tests_in_module(
                     )
                 )
 
-        elif _is_test_class(name, obj, python_classes):
+        else:
             # obj is a class at this point
             class_obj: type = obj
             if _has_init(class_obj, root.resolve()):
@@ -185,7 +200,7 @@ def _discover_tests_in_module(
                     if not any(fnmatch.fnmatch(method_name, p) for p in python_functions):
                         continue
                     method_obj: object = getattr(class_obj, method_name)
-                    if not inspect.isfunction(method_obj):
+                    if not _is_test(method_obj):
                         continue
                     method_func: FunctionType = method_obj  # type: ignore[assignment]
                     seen_methods.add(method_name)
-- 
2.43.0


From 25357ccbbe0171dc65f5ec495728eebed626a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 44/53] fix: native worker does not run tests that a file only
 imports

---
 python/rtest/worker/runner.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 79d2cb0..f0832df 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -1,5 +1,6 @@
 """Test runner implementation for rtest worker."""
 
+import ast
 import contextlib
 import fnmatch
 import importlib.util
@@ -102,6 +103,19 @@ def _has_init(class_obj: type, root: Path) -> bool:
     return False
 
 
+def _names_defined(file_path: Path) -> set[str]:
+    """The names of the functions and classes that a file defines itself, except within others."""
+    names: set[str] = set()
+    todo: list[ast.AST] = [ast.parse(file_path.read_bytes())]
+    while todo:
+        node = todo.pop()
+        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
+            names.add(node.name)
+        else:
+            todo.extend(ast.iter_child_nodes(node))
+    return names
+
+
 def _pytest_marks(obj: object) -> list[object]:
     """Get the pytest marks of a function, or of a class and its bases, nearest first."""
     owners: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
@@ -161,11 +175,20 @@ def _discover_tests_in_module(
     rel_path = rel_path.replace("\\", "/")
 
     test_cases: list[TestCase] = []
+    defined: set[str] | None = None
 
     for name, obj in inspect.getmembers(module):
         is_function = _is_test_function(name, obj, python_functions)
         if not is_function and not _is_test_class(name, obj, python_classes):
             continue
+
+        if getattr(obj, "__module__", None) != module.__name__:
+            # Imported tests are not collected; but a decorator may have put something foreign under a name of this file
+            if defined is None:
+                defined = _names_defined(file_path)
+            if name not in defined:
+                continue
+
         if is_function:
             func_obj: FunctionType = obj  # type: ignore[assignment]
             func_skip, func_skip_reason = _is_skipped(func_obj)
-- 
2.43.0


From cbfa92afc6812a5b386993312975dbb445fefd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 45/53] fix: native worker applies the case decorators of
 classes

---
 python/rtest/mark.py          | 38 +++++++++++++++++++++++++++--------
 python/rtest/worker/runner.py | 16 +++------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index 8d51cf3..da9d7c1 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -19,6 +19,7 @@ Example usage:
         pass
 """
 
+import inspect
 import itertools
 import warnings
 from dataclasses import dataclass
@@ -108,7 +109,7 @@ class Mark:
         )
 
         def decorator(func: F) -> F:
-            cases_list: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", None) or []
+            cases_list = _own_rtest_specs(func)
             # A new list: the old one may be shared with the function this one wraps
             func.__rtest_cases__ = [*cases_list, spec]  # type: ignore[union-attr]
             return func
@@ -227,16 +228,34 @@ def _extract_pytest_marker_args(
     return PytestMarkerArgs(argnames, argvalues)
 
 
-def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
-    """Get parametrize specs from rtest or pytest markers."""
+def _own_rtest_specs(obj: object) -> list[ParametrizeSpec]:
+    """Get the specs of a function, or of a class without those of its bases."""
+    if isinstance(obj, type):
+        return obj.__dict__.get("__rtest_cases__") or []
+    return getattr(obj, "__rtest_cases__", None) or []
+
+
+def get_pytest_marks(obj: object) -> list[object]:
+    """Get the pytest marks of a function, or of a class and its bases, nearest first."""
+    owners: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
+    marks: list[object] = []
+    for owner in owners:
+        own: object = getattr(owner, "__dict__", {}).get("pytestmark", [])
+        marks.extend(own if isinstance(own, (list, tuple)) else [own])
+    return marks
+
+
+def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
+    """Get parametrize specs of a function, or of a class and its bases, from rtest or pytest markers."""
     # Check rtest markers first
-    rtest_specs: list[ParametrizeSpec] = getattr(func, "__rtest_cases__", [])
+    owners: tuple[object, ...] = inspect.getmro(func) if isinstance(func, type) else (func,)
+    rtest_specs: list[ParametrizeSpec] = [spec for owner in owners for spec in _own_rtest_specs(owner)]
     if rtest_specs:
         return rtest_specs
 
     # Check pytest markers (with deprecation warning)
     specs: list[ParametrizeSpec] = []
-    pytest_marks: list[object] = getattr(func, "pytestmark", [])
+    pytest_marks: list[object] = get_pytest_marks(func) if isinstance(func, type) else getattr(func, "pytestmark", [])
     for pytest_mark in pytest_marks:
         if getattr(pytest_mark, "name", None) == "parametrize":
             warnings.warn(
@@ -275,16 +294,17 @@ def _get_parametrize_specs(func: FunctionType) -> list[ParametrizeSpec]:
     return specs
 
 
-def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
+def expand_parametrize(func: FunctionType, test_class: type | None = None) -> list[ExpandedCase]:
     """Expand test cases for a test function.
 
-    If the function has no @rtest.mark.cases decorators, returns a single
-    entry with empty case_id and empty kwargs.
+    If neither the function nor its class has @rtest.mark.cases decorators,
+    returns a single entry with empty case_id and empty kwargs.
 
     For multiple stacked @cases decorators, computes the cartesian product.
 
     Args:
         func: The test function (may have __rtest_cases__ attribute).
+        test_class: The test class whose method the function is, if any.
 
     Returns:
         List of ExpandedCase entries where:
@@ -292,6 +312,8 @@ def expand_parametrize(func: FunctionType) -> list[ExpandedCase]:
         - kwargs is the dict of arguments to pass to the function
     """
     specs = _get_parametrize_specs(func)
+    if test_class is not None:
+        specs = [*specs, *_get_parametrize_specs(test_class)]
 
     if not specs:
         return [ExpandedCase("", {})]
diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index f0832df..376d3cf 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -116,19 +116,9 @@ def _names_defined(file_path: Path) -> set[str]:
     return names
 
 
-def _pytest_marks(obj: object) -> list[object]:
-    """Get the pytest marks of a function, or of a class and its bases, nearest first."""
-    owners: tuple[object, ...] = inspect.getmro(obj) if inspect.isclass(obj) else (obj,)
-    marks: list[object] = []
-    for owner in owners:
-        own: object = getattr(owner, "__dict__", {}).get("pytestmark", [])
-        marks.extend(own if isinstance(own, (list, tuple)) else [own])
-    return marks
-
-
 def _is_skipped(obj: object) -> tuple[bool, str]:
     """Check if an object has the skip marker (rtest or pytest)."""
-    from rtest.mark import SKIP_DEPRECATION_MSG
+    from rtest.mark import SKIP_DEPRECATION_MSG, get_pytest_marks
 
     # Check rtest marker first
     skip_flag: bool = bool(getattr(obj, "__rtest_skip__", False))
@@ -137,7 +127,7 @@ def _is_skipped(obj: object) -> tuple[bool, str]:
         return True, skip_reason_attr
 
     # Check pytest marker (with deprecation warning)
-    for pytest_mark in _pytest_marks(obj):
+    for pytest_mark in get_pytest_marks(obj):
         if getattr(pytest_mark, "name", None) == "skip":
             func_name: str = str(getattr(obj, "__name__", str(obj)))
             warnings.warn(
@@ -232,7 +222,7 @@ def _discover_tests_in_module(
                     skip = method_skip or class_skip
                     skip_reason = method_skip_reason if method_skip else class_skip_reason
 
-                    for case_id, kwargs in expand_parametrize(method_func):
+                    for case_id, kwargs in expand_parametrize(method_func, class_obj):
                         suffix = get_case_nodeid_suffix(case_id)
                         nodeid = f"{rel_path}::{name}::{method_name}{suffix}"
                         test_cases.append(
-- 
2.43.0


From b7ca7085babaa18f06c144fbef475e0506a83fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 46/53] fix: native worker supports relative imports in
 packages

---
 python/rtest/worker/runner.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 376d3cf..416b3ca 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -43,6 +43,16 @@ class TestCase:
     method_name: str = ""
 
 
+def _package_of(file_path: Path) -> tuple[Path, str]:
+    """The directory that the package of a file is imported from, and its name; empty if the file is in no package."""
+    directory = file_path.parent
+    names: list[str] = []
+    while (directory / "__init__.py").is_file() and directory.name:
+        names.insert(0, directory.name)
+        directory = directory.parent
+    return directory, ".".join(names)
+
+
 def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
     """Import a Python module from a file path."""
     try:
@@ -55,7 +65,12 @@ def _import_module_from_file(file_path: Path, root: Path) -> ModuleType:
         module_name = module_name[:-3]
 
     # Add prefix to avoid collisions with installed packages
-    module_name = f"_rtest_module_.{module_name}"
+    _, package = _package_of(file_path)
+    if package:
+        # Relative imports lead from the real package
+        module_name = f"{package}._rtest_module_{module_name.replace('.', '_')}"
+    else:
+        module_name = f"_rtest_module_.{module_name}"
 
     spec = importlib.util.spec_from_file_location(module_name, file_path)
     if spec is None or spec.loader is None:
@@ -343,6 +358,8 @@ def run_tests(
 
     # Add all test directories to sys.path for sibling imports
     test_dirs = {str(f.parent.resolve()) for f in test_files}
+    # And the directories that their packages are in for relative imports
+    test_dirs |= {str(_package_of(f.resolve())[0]) for f in test_files}
     for test_dir in sorted(test_dirs):
         if test_dir not in sys.path:
             sys.path.insert(0, test_dir)
-- 
2.43.0


From 0be1234bb3620a7d477dc582c6095d1c9e6f559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 47/53] fix: native worker refuses classes for a constructor
 wherever collection does

---
 python/rtest/worker/runner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 416b3ca..a371a71 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -8,6 +8,7 @@ import inspect
 import io
 import json
 import sys
+import sysconfig
 import time
 import traceback
 import warnings
@@ -109,12 +110,16 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
-def _has_init(class_obj: type, root: Path) -> bool:
-    """Whether a class of the project, or a base of it, defines a constructor; collection does not take such classes."""
+def _has_init(class_obj: type) -> bool:
+    """Whether a class, or a base of it that is not an installed one, has a constructor; collection refuses these."""
+    installed = [sysconfig.get_path(key) for key in ("stdlib", "platstdlib", "purelib", "platlib")]
     for owner in inspect.getmro(class_obj):
         code: object = getattr(owner.__dict__.get("__init__"), "__code__", None)
-        if isinstance(code, CodeType) and Path(code.co_filename).is_relative_to(root):
-            return True
+        if isinstance(code, CodeType):
+            # What is generated, as for data classes, has no path
+            path = Path(code.co_filename)
+            if path.is_absolute() and not any(path.is_relative_to(directory) for directory in installed):
+                return True
     return False
 
 
@@ -214,7 +219,7 @@ def _discover_tests_in_module(
         else:
             # obj is a class at this point
             class_obj: type = obj
-            if _has_init(class_obj, root.resolve()):
+            if _has_init(class_obj):
                 continue
             class_skip, class_skip_reason = _is_skipped(class_obj)
 
-- 
2.43.0


From 7f639952cc7b4a330991288c262a1dfafdefc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 48/53] fix: run_tests accepts relative directories, files and
 pytest flags

---
 src/pyo3.rs | 49 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/pyo3.rs b/src/pyo3.rs
index f14f321..024a4db 100644
--- a/src/pyo3.rs
+++ b/src/pyo3.rs
@@ -101,34 +101,31 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
     // Use the current Python executable
     let runner = PytestRunner::from_current_python(py);
 
-    // Determine root path: if the first argument is a path and not a pytest flag, use it
-    let (rootpath, filtered_args) = if let Some(first_arg) = pytest_args.first() {
-        if !first_arg.starts_with('-') && std::path::Path::new(first_arg).exists() {
-            // First argument is a path, use it as root and remove it from pytest args
-            let path = PathBuf::from(first_arg);
-            let remaining_args = pytest_args.into_iter().skip(1).collect();
-            (path, remaining_args)
-        } else {
-            // First argument is not a path, use current directory
-            match get_current_dir() {
-                Ok(dir) => (dir, pytest_args),
-                Err(e) => {
-                    eprintln!("{e}");
-                    return 1;
-                }
-            }
-        }
-    } else {
-        match get_current_dir() {
-            Ok(dir) => (dir, pytest_args),
-            Err(e) => {
-                eprintln!("{e}");
-                return 1;
-            }
+    let current_dir = match get_current_dir() {
+        Ok(dir) => dir,
+        Err(e) => {
+            eprintln!("{e}");
+            return 1;
         }
     };
 
-    let collection_result = collect_tests_rust(rootpath.clone(), &filtered_args);
+    // Determine root path: if the first argument is a directory and not a pytest flag, use it.
+    // It has to be absolute, as pytest is started in it.
+    let root_arg = pytest_args
+        .first()
+        .filter(|arg| !arg.starts_with('-'))
+        .map(|arg| current_dir.join(arg))
+        .filter(|path| path.is_dir());
+    let remaining_args = pytest_args
+        .into_iter()
+        .skip(usize::from(root_arg.is_some()));
+    let rootpath = root_arg.unwrap_or(current_dir);
+
+    // Flags are for pytest, anything else is a path to collect
+    let (flags, paths): (Vec<String>, Vec<String>) =
+        remaining_args.partition(|arg| arg.starts_with('-'));
+
+    let collection_result = collect_tests_rust(rootpath.clone(), &paths);
 
     let (test_nodes, errors) = match collection_result {
         Ok((nodes, errs)) => (nodes, errs),
@@ -151,7 +148,7 @@ fn run_tests(py: Python, pytest_args: Option<Vec<String>>) -> i32 {
         &runner.program,
         &runner.initial_args,
         test_nodes,
-        filtered_args,
+        flags,
         Some(&rootpath),
         &runner.env_vars,
     )
-- 
2.43.0


From a601c1a92ebcadd1e54f669445cd67a6137ad073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 49/53] fix: native worker runs classes whose constructor
 collection cannot see

---
 python/rtest/worker/runner.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index a371a71..54cb3a9 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -7,6 +7,7 @@ import importlib.util
 import inspect
 import io
 import json
+import os
 import sys
 import sysconfig
 import time
@@ -110,15 +111,21 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
-def _has_init(class_obj: type) -> bool:
-    """Whether a class, or a base of it that is not an installed one, has a constructor; collection refuses these."""
+def _has_init(class_obj: type, file_path: Path, root: Path) -> bool:
+    """Whether a class, or a base of it that collection finds, has a constructor; collection refuses these."""
     installed = [sysconfig.get_path(key) for key in ("stdlib", "platstdlib", "purelib", "platlib")]
+    # Where collection looks for imported modules, links followed
+    python_path = [Path(entry) for entry in os.environ.get("PYTHONPATH", "").split(os.pathsep) if entry]
+    searched = [root, _package_of(file_path)[0], _package_of(file_path.resolve())[0], *python_path]
+    visible = [directory.resolve() for directory in searched]
     for owner in inspect.getmro(class_obj):
         code: object = getattr(owner.__dict__.get("__init__"), "__code__", None)
         if isinstance(code, CodeType):
             # What is generated, as for data classes, has no path
             path = Path(code.co_filename)
-            if path.is_absolute() and not any(path.is_relative_to(directory) for directory in installed):
+            if not path.is_absolute() or any(path.is_relative_to(directory) for directory in installed):
+                continue
+            if any(path.resolve().is_relative_to(directory) for directory in visible):
                 return True
     return False
 
@@ -219,7 +226,7 @@ def _discover_tests_in_module(
         else:
             # obj is a class at this point
             class_obj: type = obj
-            if _has_init(class_obj):
+            if _has_init(class_obj, file_path, root):
                 continue
             class_skip, class_skip_reason = _is_skipped(class_obj)
 
-- 
2.43.0


From 5c55bfce43bd989858558b589be1f62b4a7545c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 50/53] fix: native worker looks for constructors where
 collection looks for modules

---
 python/rtest/worker/runner.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/python/rtest/worker/runner.py b/python/rtest/worker/runner.py
index 54cb3a9..9c3506e 100644
--- a/python/rtest/worker/runner.py
+++ b/python/rtest/worker/runner.py
@@ -9,7 +9,6 @@ import io
 import json
 import os
 import sys
-import sysconfig
 import time
 import traceback
 import warnings
@@ -111,22 +110,21 @@ def _is_test_class(name: str, obj: object, patterns: list[str]) -> bool:
     return any(fnmatch.fnmatch(name, p) for p in patterns)
 
 
-def _has_init(class_obj: type, file_path: Path, root: Path) -> bool:
+def _has_init(class_obj: type, module: ModuleType, file_path: Path, root: Path) -> bool:
     """Whether a class, or a base of it that collection finds, has a constructor; collection refuses these."""
-    installed = [sysconfig.get_path(key) for key in ("stdlib", "platstdlib", "purelib", "platlib")]
-    # Where collection looks for imported modules, links followed
-    python_path = [Path(entry) for entry in os.environ.get("PYTHONPATH", "").split(os.pathsep) if entry]
-    searched = [root, _package_of(file_path)[0], _package_of(file_path.resolve())[0], *python_path]
-    visible = [directory.resolve() for directory in searched]
+    # Where collection looks for imported modules
+    searched = [root, _package_of(file_path)[0]]
+    searched += [Path(entry) for entry in os.environ.get("PYTHONPATH", "").split(os.pathsep) if entry]
     for owner in inspect.getmro(class_obj):
         code: object = getattr(owner.__dict__.get("__init__"), "__code__", None)
-        if isinstance(code, CodeType):
-            # What is generated, as for data classes, has no path
-            path = Path(code.co_filename)
-            if not path.is_absolute() or any(path.is_relative_to(directory) for directory in installed):
-                continue
-            if any(path.resolve().is_relative_to(directory) for directory in visible):
-                return True
+        # What is generated, as for data classes, has no path
+        if not isinstance(code, CodeType) or not Path(code.co_filename).is_absolute():
+            continue
+        inner = str(owner.__module__).replace(".", "/")
+        if owner.__module__ == module.__name__ or any(
+            (directory / f"{inner}{end}").is_file() for directory in searched for end in (".py", "/__init__.py")
+        ):
+            return True
     return False
 
 
@@ -226,7 +224,7 @@ def _discover_tests_in_module(
         else:
             # obj is a class at this point
             class_obj: type = obj
-            if _has_init(class_obj, file_path, root):
+            if _has_init(class_obj, module, file_path, root):
                 continue
             class_skip, class_skip_reason = _is_skipped(class_obj)
 
-- 
2.43.0


From 4a3f25b8027578356694cef9711d55bb84291bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 51/53] fix: collection lists directories in name order

---
 src/collection/nodes.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/collection/nodes.rs b/src/collection/nodes.rs
index 1c8ef67..0459722 100644
--- a/src/collection/nodes.rs
+++ b/src/collection/nodes.rs
@@ -220,18 +220,21 @@ impl Collector for Directory {
             Err(err) => return Err(err.into()),
         };
 
-        // Process entries, filtering out unnecessary Vec allocations
-        let mut items = Vec::new();
-
+        // The file system lists entries in no particular order
+        let mut paths = Vec::new();
         for entry_result in dir_entries {
-            let entry = match entry_result {
-                Ok(entry) => entry,
+            match entry_result {
+                Ok(entry) => paths.push(entry.path()),
                 Err(err) if err.kind() == std::io::ErrorKind::PermissionDenied => continue,
                 Err(err) => return Err(err.into()),
-            };
+            }
+        }
+        paths.sort();
 
-            let path = entry.path();
+        // Process entries, filtering out unnecessary Vec allocations
+        let mut items = Vec::new();
 
+        for path in paths {
             if self.session().should_ignore_path(&path)? {
                 continue;
             }
-- 
2.43.0


From ab4c9c2fde49f8b5d45a304d77903dff8ae79f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 52/53] fix: bases in the test file itself count in directories
 named like standard modules

---
 src/python_discovery/semantic_analyzer.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/python_discovery/semantic_analyzer.rs b/src/python_discovery/semantic_analyzer.rs
index 00cccf1..7129423 100644
--- a/src/python_discovery/semantic_analyzer.rs
+++ b/src/python_discovery/semantic_analyzer.rs
@@ -697,7 +697,7 @@ impl SemanticTestDiscovery {
                 match resolved {
                     Some(resolved) => {
                         // Skip init check for known stdlib modules
-                        if self.is_stdlib_module_to_skip(&resolved.module_path) {
+                        if self.is_stdlib_module_to_skip(&resolved) {
                             // Assume stdlib modules like unittest.TestCase don't prevent collection
                             continue;
                         }
@@ -734,7 +734,7 @@ impl SemanticTestDiscovery {
         module_resolver: &mut ModuleResolver,
         visited: &mut HashSet<(Vec<String>, String)>,
     ) -> CollectionResult<bool> {
-        if self.is_stdlib_module_to_skip(&resolved.module_path) {
+        if self.is_stdlib_module_to_skip(resolved) {
             return Ok(false);
         }
 
@@ -794,7 +794,7 @@ impl SemanticTestDiscovery {
         module_resolver: &mut ModuleResolver,
         visited: &mut HashSet<(Vec<String>, String)>,
     ) -> CollectionResult<Vec<Ancestor>> {
-        if self.is_stdlib_module_to_skip(&resolved.module_path) {
+        if self.is_stdlib_module_to_skip(resolved) {
             return Ok(Vec::new());
         }
 
@@ -1116,12 +1116,13 @@ impl SemanticTestDiscovery {
     /// Check if a module should be skipped for inheritance analysis.
     ///
     /// Uses ruff's comprehensive stdlib detection to skip all standard library modules,
-    /// since the module resolver can only resolve project-local modules.
-    fn is_stdlib_module_to_skip(&self, module_path: &[String]) -> bool {
-        if module_path.is_empty() {
-            return false;
+    /// since the module resolver can only resolve project-local modules. The test file itself may
+    /// be in a directory with the name of one.
+    fn is_stdlib_module_to_skip(&self, resolved: &ResolvedBaseClass) -> bool {
+        match resolved.module_path.first() {
+            Some(name) if !resolved.is_local => is_known_standard_library(11, name),
+            _ => false,
         }
-        is_known_standard_library(11, &module_path[0])
     }
 
     /// Helper to get alias name with fallback to the original name
-- 
2.43.0


From 08ab2f962d0103a89b53ed0ae829497579956268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 53/53] fix: ignore empty names in a string of argument names

A trailing comma, as in cases("x,", [1, 2]), names no further argument:
collection and pytest read it so, but the worker failed the whole file.
---
 python/rtest/mark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/rtest/mark.py b/python/rtest/mark.py
index da9d7c1..be42e39 100644
--- a/python/rtest/mark.py
+++ b/python/rtest/mark.py
@@ -96,7 +96,7 @@ class Mark:
                 pass
         """
         if isinstance(argnames, str):
-            parsed_argnames = tuple(name.strip() for name in argnames.split(","))
+            parsed_argnames = tuple(name.strip() for name in argnames.split(",") if name.strip())
         else:
             parsed_argnames = tuple(argnames)
 
@@ -270,7 +270,7 @@ def _get_parametrize_specs(func: FunctionType | type) -> list[ParametrizeSpec]:
             ids_raw: object = mark_kwargs.get("ids")
 
             if isinstance(argnames_raw, str):
-                parsed_argnames = tuple(name.strip() for name in argnames_raw.split(","))
+                parsed_argnames = tuple(name.strip() for name in argnames_raw.split(",") if name.strip())
             else:
                 # Assume it's a sequence of strings - need type ignore for iteration on object
                 parsed_argnames = tuple(str(n) for n in argnames_raw)  # type: ignore[attr-defined]
-- 
2.43.0

