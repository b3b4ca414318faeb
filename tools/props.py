import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Distribution hands out every test exactly once",
 "For every list of test ids, every distribution mode and every worker count of at least one, the batches contain each given test id exactly as many times as it was given and nothing else. No batch is empty, and there are never more batches than workers (exactly one for mode `no`).",
 ["inputs","configurations"],"all test lists (duplicates, unusual ids, any length), all five modes, all worker counts >= 1",
 "The unit tests pin a handful of lists of at most eight ids and a few worker counts; a loss that needs a particular ratio of tests to workers, a particular id shape or a long list is not sampled.",
 ["src/scheduler.rs"],[("distribute_tests of the five schedulers","src/scheduler.rs"),("distribute_groups_to_workers / group_tests_by_key","src/scheduler.rs")],
 ["create_scheduler(mode).distribute_tests(tests, n)"],[("batches","one list of test ids per worker","return value of distribute_tests")])
p("C02","loadscope and loadfile keep related tests on one worker",
 "Under `loadfile` all tests of one file are in the same batch. Under `loadscope` all methods of one top-level class of one file, those of classes nested in it included, are in the same batch, and all module-level test functions of one file are in the same batch; this holds whatever characters the bracketed case ids contain (including `::`).",
 ["inputs","configurations"],"all test lists mixing files, classes, functions and parametrized ids, in any order, for every worker count",
 "Tests check two hand-written lists with plain ids; affinity has to hold for every interleaving of files and classes in the input and every id text.",
 ["src/scheduler.rs"],[("extract_scope / extract_file","src/scheduler.rs"),("group_tests_by_key","src/scheduler.rs")],["create_scheduler(mode).distribute_tests(tests, n)"])
p("C03","Distribution is deterministic, order-preserving and balanced",
 "Distributing the same list twice gives the same batches. Tests of one unit (a single test for `load`/`worksteal`, a top-level class or module for `loadscope`, a file for `loadfile`, everything for `no`) keep their given order inside a batch, and for `load`/`worksteal`/`no` the whole batch keeps the given order. Work is spread evenly: as many batches as min(workers, units), and the numbers of units of any two batches differ by at most one.",
 ["inputs","configurations"],"all test lists, modes and worker counts >= 1",
 "Balance and order are asserted for a few fixed lists; the claim is about every ratio of tests to workers and every order of the input.",
 ["src/scheduler.rs"],[("round robin over units","src/scheduler.rs"),("BTreeMap grouping","src/scheduler.rs")],["create_scheduler(mode).distribute_tests(tests, n)"])
p("C04","Subproject grouping loses no test and picks the nearest subproject",
 "For every directory tree and list of collected test ids, each id is in exactly one group, as many times as it was given, including ids whose file is a symlink, is missing, or lies outside the root. An existing file is grouped under the nearest directory, strictly below the root and enclosing the file's real location (symlinks resolved), that contains a pyproject.toml, and under the root when there is none or the real location is outside the root.",
 ["inputs","configurations"],"all directory trees (nesting, markers at any level, symlinks, missing files) and all lists of ids over them",
 "No test calls the grouping at all; the integration tests that would need the compiled extension.",
 ["src/subproject.rs","src/runner.rs","src/pyo3.rs"],[("group_tests_by_subproject / find_subproject_root","src/subproject.rs")],["group_tests_by_subproject(rootpath, ids)"],
 [("groups","directory -> ids","return value of group_tests_by_subproject")])
p("C05","A relocated test id still names the same test",
 "When the ids of a group are rewritten to be relative to the group's directory, each rewritten id, resolved from that directory, denotes the same file that the original id denotes from the root. Everything from the first `::` on is unchanged, and order and number of ids are unchanged.",
 ["inputs","configurations"],"all groups produced from all trees and id lists: nested subprojects, names that are prefixes of each other, symlinks, `..`, parametrized ids",
 "One unit test rewrites three ids by string; whether the result denotes the same file depends on the tree.",
 ["src/subproject.rs"],[("make_test_paths_relative","src/subproject.rs")],["make_test_paths_relative(ids, root, group_dir)","argument vectors of launched workers"])
p("C06","A parallel run launches every test once, in its subproject",
 "Over all worker processes of one parallel pytest run, every collected test is passed exactly once, to a process whose working directory and `--rootdir` are its subproject's directory and whose arguments denote that test from there. Every process is started with the configured program, the configured initial arguments first, and every configured environment variable; no more than the worker count are started per subproject, and a worker count of 0 still runs every test.",
 ["inputs","configurations","schedules"],"all trees, id lists, modes, worker counts including 0, environment settings and completion orders",
 "Unit tests start `echo` two or three times; nothing checks the union of what a whole run launches.",
 ["src/runner.rs","src/worker.rs","src/scheduler.rs","src/subproject.rs"],[("execute_tests_parallel","src/runner.rs"),("WorkerPool::spawn_worker","src/worker.rs")],["argv, cwd and environment of every launched process"])
p("C07","A parallel run exits 0 only if every worker succeeded",
 "The exit status of a parallel pytest run is 0 if and only if every launched worker exited with status 0. A worker that exits non-zero, is killed by a signal or cannot be started makes it non-zero, whichever worker it is and in whatever order workers finish; if every failing worker exited with a status of its own, the run's status is the status of one of them.",
 ["fault_sequences","schedules"],"all assignments of outcomes (any status, any signal, no start) to workers and all completion orders",
 "Only single-worker failures are unit tested; combinations of failing and succeeding workers and their order are not.",
 ["src/runner.rs","src/worker.rs"],[("exit code folding in execute_tests_parallel","src/runner.rs"),("WorkerPool::wait_for_all","src/worker.rs")],["return value of execute_tests_parallel","WorkerResult.exit_code"])
p("C08","Worker output is relayed whole, in worker order",
 "After a parallel pytest run every worker's standard output has been printed exactly once, complete and not interleaved with another worker's, below its own header and in ascending worker order, and every worker's standard error has been relayed complete. This does not depend on the order in which workers finish, on their exit status, or on how much they write.",
 ["schedules","inputs"],"all completion orders, output sizes far above a pipe buffer, outputs without final newline or not valid UTF-8, failing workers",
 "Unit tests read a few bytes from `echo`; neither order under different completion schedules nor large output is sampled.",
 ["src/runner.rs","src/worker.rs"],[("wait_for_all sorts by worker id","src/worker.rs"),("relay loop","src/runner.rs")],["stdout/stderr of the rtest process"])
p("C09","Workers of one run execute concurrently",
 "Every worker process of a run (parallel pytest run over all its subprojects, and native run) is started without waiting for another worker of that run to finish. So a run whose workers all wait until every one of them has started still completes.",
 ["schedules"],"all schedules in which workers wait for one another, for every number of workers and subprojects",
 "No test has workers that depend on one another; a run that silently became sequential would pass all of them.",
 ["src/runner.rs","src/worker.rs","src/native_runner.rs"],[("thread per worker, joined after all are spawned","src/worker.rs"),("thread::spawn per shard","src/native_runner.rs")],["process start and end events of workers"])
p("C10","A single pytest launch passes arguments, environment and status through",
 "A sequential pytest launch starts the program exactly once with the initial arguments, then `--rootdir` and the working directory (when one is given), then every test id in order, then the extra arguments, in that working directory and with every configured environment variable. Its result is the program's exit status; it is non-zero when the program is killed by a signal or cannot be started.",
 ["inputs","fault_sequences"],"all argument lists, environment settings, exit statuses, signals and start failures",
 "One unit test covers a program that does not exist.",
 ["src/pytest_executor.rs"],[("execute_tests","src/pytest_executor.rs")],["argv, cwd, environment of the process; return value of execute_tests"])
p("C11","Native discovery finds every matching test file exactly once",
 "The files a native run executes are exactly the `.py` files whose name matches at least one `python_files` pattern and that are named by, or lie at any depth below, one of the given paths (the root if none is given), each exactly once even if the given paths overlap, in sorted order. Below a given path, files and directories whose name starts with `.` or is `__pycache__` are left out, and so are directories that collection does not enter (named `_darcs`, `build`, `CVS`, `dist`, `node_modules`, `venv`, `{arch}` or `*.egg`), but a path that was given explicitly is always searched, whatever its own name is. Symbolic links to files and directories are followed like files and directories.",
 ["inputs","configurations"],"all directory trees, pattern lists and path lists (relative, absolute, overlapping, missing, hidden) without `..` in the given paths and without cycles of links",
 "Unit tests only match single names against patterns; no test walks a tree without the compiled extension.",
 ["src/native_runner.rs","src/collection/utils.rs"],[("collect_test_files / collect_test_files_in_dir","src/native_runner.rs"),("glob_match","src/collection/utils.rs")],["collect_test_files(root, paths, patterns)"])
p("C12","A native run gives every test file to exactly one worker",
 "In a native run every given test file is passed to exactly one worker process, and min(workers, files) processes are started (0 workers counts as 1), none without files. Each process runs the rtest worker module with the configured Python in the root directory and gets the root, the class and function patterns and a results file of its own; the numbers of files of any two workers differ by at most one.",
 ["inputs","configurations"],"all file counts, worker counts and pattern lists",
 "Sharding is unit tested on up to five files; the arguments actually handed to processes are never observed.",
 ["src/native_runner.rs"],[("shard_files / run_worker","src/native_runner.rs")],["argv and cwd of every launched worker"])
p("C13","A native run never reports success when results are missing or bad",
 "A native run exits 0 if and only if every worker ended with status 0 after delivering a results file that can be read and parsed completely, and no delivered result is anything but passed or skipped; in every other case it exits 1. Worker crashes, kills, start failures, missing, truncated or corrupt results files therefore never turn into success, whichever worker they hit and whatever the others report.",
 ["fault_sequences","crash_points","schedules"],"all assignments of faults (no start, any status, signal, file missing / empty line / truncated / corrupt / unknown outcome) to workers, at any point of their run",
 "No test lets a worker die; the exit code is only exercised through the CLI with healthy workers.",
 ["src/native_runner.rs","python/rtest/worker/runner.py"],[("worker_errors and aggregated counts decide the exit code","src/native_runner.rs"),("parse_results_file","src/native_runner.rs")],["return value of execute_native"])
p("C14","The native summary agrees with the results",
 "The summary of a native run counts, for each outcome, exactly the delivered results with that outcome over all workers; outcomes with no result are not mentioned, and a result with an outcome it does not know counts as an error. The time it gives is the sum of the times of the delivered results. It says PASSED exactly when the run exits 0 and FAILED otherwise, and it lists every failed test id once under FAILURES and every errored one once under ERRORS, each with its traceback or reason.",
 ["inputs","schedules","fault_sequences"],"all multisets of results over all numbers of workers, all completion orders, with and without worker faults",
 "Aggregation is unit tested on one list of four results; the printed text is never compared with results.",
 ["src/native_runner.rs"],[("aggregate_results / print_summary","src/native_runner.rs")],["stdout of execute_native"])
p("C15","Each pytest setting is read independently and malformed config is safe",
 "For every pyproject.toml, each of testpaths, python_files, python_classes and python_functions under [tool.pytest.ini_options] yields exactly the string entries of its array, in order; a setting that is absent or not an array yields an empty list without affecting the other settings. A missing, unreadable or syntactically invalid file yields four empty lists; reading never fails or panics.",
 ["inputs"],"all TOML documents, including wrong types at every level and invalid text",
 "Unit tests read five well-formed files; malformed, mistyped and partial configurations are not covered.",
 ["src/config.rs"],[("read_pytest_config","src/config.rs")],["read_pytest_config(root)"])
p("C16","The worker count is what was asked for, capped by --maxprocesses",
 "`-n N` gives N workers, `-n auto` the number of physical and `-n logical` the number of logical CPUs, no `-n` gives one; `--maxprocesses M` lowers any of these to M and never raises it. Any other `-n` value is rejected with an error, and `--dist` accepts exactly load, loadscope, loadfile, worksteal and no.",
 ["inputs","configurations"],"all combinations of -n text, --maxprocesses and --dist text",
 "Tests sample a dozen pairs; the claim is over every value and combination.",
 ["src/cli.rs","src/utils.rs","src/scheduler.rs"],[("Args::get_num_processes / validate_dist","src/cli.rs"),("determine_worker_count","src/utils.rs")],["Args::parse_from + get_num_processes + determine_worker_count + validate_dist"])
p("C17","Every --env KEY=VALUE reaches pytest unchanged",
 "Every `--env KEY=VALUE` is split at its first `=`, so values may contain `=` or be empty, and the pairs are passed on in the given order with neither key nor value altered; an entry without `=` is dropped without affecting the others. Every launched pytest process sees each key with the value given last for it.",
 ["inputs","configurations"],"all lists of entries: repeated keys, empty values, values with `=`, quotes, spaces or non-ASCII text, invalid entries in any position",
 "Two unit tests use simple entries and look only at how many were kept.",
 ["src/runner.rs","src/cli.rs","src/worker.rs","src/pytest_executor.rs"],[("split_once('=')","src/runner.rs"),("cmd.env","src/worker.rs")],["environment of the launched processes","PytestRunner::new(env).env_vars"])
p("C18","A native run leaves no temporary files behind",
 "When a native run returns, everything it created in the temporary directory to exchange results with its workers has been removed, whatever the workers delivered and however they ended.",
 ["fault_sequences","inputs"],"all assignments of faults to workers, including results files replaced by directories and workers that never start",
 "No test looks at the temporary directory after a run, and none has failing workers.",
 ["src/native_runner.rs"],[("TempDir dropped at the end of execute_native","src/native_runner.rs")],["entries of TMPDIR after execute_native"])
p("C20","The worker reports every discovered test case exactly once",
 "For every set of test files, the results the Python worker writes contain exactly one record for every case of every matching function and of every matching method (own or inherited) of every matching class of the files that import, one error record for every file that fails to import, and no other record; what a file only imports and does not define are not its tests. A file whose case decorators are malformed counts as failing to import. This holds whatever exceptions the tests raise and whatever they write, as long as they do not end or interrupt the process.",
 ["programs","inputs"],"all sets of generated test modules: functions, classes, inheritance, cases, skips, import failures, exceptions of every kind in every phase",
 "Tests run a few fixed fixture files; a lost or duplicated record needs a particular combination of features.",
 ["python/rtest/worker/runner.py"],[("run_tests / _discover_tests_in_module","python/rtest/worker/runner.py")],["results file of `python -m rtest.worker`"],
 [("results","ordered list of records","results JSONL")])
p("C21","A worker outcome tells what actually happened",
 "A test case is reported passed only if its instance creation, setup, body and teardown all ran to completion without raising; it is reported failed if what ended it is an AssertionError and error if it is any other exception, including SystemExit and other non-Exception exceptions (KeyboardInterrupt apart, which aborts the worker) and including bodies that never ran because they are coroutines or generators. The worker exits 1 if some record is failed or error, and 0 otherwise.",
 ["programs","fault_sequences"],"all exception kinds raised in every phase (construction, setup, body, teardown), alone and combined, over any number of tests",
 "One fixture with an assertion and a ValueError is tested; the product of phases and exception kinds is not.",
 ["python/rtest/worker/runner.py"],[("_run_single_test","python/rtest/worker/runner.py")],["outcome, error_type and traceback of each record; exit status of the worker"])
p("C22","Each method case runs alone: fresh instance, setup, body, teardown",
 "Every case of a test method runs on a newly created instance of the reported class, with setup (setup_method, else setUp) before the body and teardown (teardown_method, else tearDown) after it, each exactly once. If setup raises, the body does not run; once setup has completed, teardown runs even if the body raises, and no failure in any phase keeps a later test from running.",
 ["programs","fault_sequences","histories"],"all sequences of test methods with faults injected in any phase of any of them",
 "No existing test has setup or teardown at all.",
 ["python/rtest/worker/runner.py"],[("_run_single_test","python/rtest/worker/runner.py")],["events emitted by the bodies of generated tests"],
 [("phase","new / setup / body / teardown of the current case","_run_single_test")])
p("C23","A skipped test never executes and an unskipped one always does",
 "No code of a test case marked skip, directly, through its class or through an inherited class marker, by rtest or pytest marker, is executed (no instance, setup, body or teardown), and every one of its cases is reported skipped with the nearest reason (its own, else its class's). A case that carries no skip marker is never reported skipped.",
 ["programs"],"all combinations of markers on functions, methods, classes and base classes, with and without cases",
 "Tests cover one skipped function and one skipped class, looking only at the outcome.",
 ["python/rtest/worker/runner.py","python/rtest/mark.py"],[("_is_skipped","python/rtest/worker/runner.py"),("Mark.skip","python/rtest/mark.py")],["events emitted by generated tests; records of the worker"])
p("C24","Captured output belongs to its test and never corrupts the results",
 "Each record carries exactly what its own test case wrote to sys.stdout and sys.stderr in all of its phases, and nothing another test or an import wrote. Whatever text a test writes or puts into an exception (newlines, NULs, non-ASCII text, lone surrogates), every line of the results file is one complete JSON record that a strict JSON parser accepts.",
 ["programs","inputs"],"all sequences of tests writing arbitrary text in any phase, passing or failing",
 "Existing tests do not look at captured output.",
 ["python/rtest/worker/runner.py","src/native_runner.rs"],[("redirect_stdout/redirect_stderr per test","python/rtest/worker/runner.py"),("json.dumps per record; serde_json on the other side","src/native_runner.rs")],["stdout/stderr fields of records; parse of the results file by the native runner"])
p("C25","Cases expand to the full product with the right arguments",
 "A test with stacked `cases` decorators runs once for every combination of one entry per decorator, each time with exactly the arguments those entries name; the decorator nearest the function varies slowest and each decorator's entries come in their given order. An entry of the wrong shape is an error that is reported, never a silently different or missing case, and decorating one function or class never changes the cases of another. Decorators on a class count for its methods and those of the classes derived from it.",
 ["inputs","programs"],"all stacks of decorators, on functions and on classes, with any number of names and entries, shared or copied function attributes, malformed entries",
 "Tests sample one, two and stacked decorators with two or three values.",
 ["python/rtest/mark.py"],[("expand_parametrize / _expand_single_spec","python/rtest/mark.py"),("Mark.cases","python/rtest/mark.py")],["expand_parametrize(func)","kwargs received by test bodies"])
p("C26","Case ids are distinct, stable and follow explicit ids",
 "The case ids one decorator gives to its entries are pairwise distinct, whatever the values and explicit ids are. An entry with an explicit id uses it and any other entry uses the text of its value, as long as that is not already taken; the id of a combination joins the ids of its entries with `-` in decorator order, so it is the same on every run.",
 ["inputs"],"all lists of values and explicit ids, including repeated ones, ones that look like a deduplicated id, empty strings and fewer ids than values",
 "Tests use a few distinct values; collisions between generated suffixes and given ids are not sampled.",
 ["python/rtest/mark.py"],[("_deduplicate_ids / _value_to_id_string","python/rtest/mark.py")],["expand_parametrize(func) case ids"])
p("C27","pytest markers mean the same as rtest markers in the native worker",
 "A test marked with `pytest.mark.parametrize(argnames, argvalues, ids=...)`, with arguments given by position or by keyword and argvalues any list, tuple, set, range or other collection of plain values, runs the same cases with the same ids and arguments as the same test marked with `rtest.mark.cases`. `pytest.mark.skip`, with or without a reason, skips like `rtest.mark.skip`; if a function carries both kinds of case marker the rtest one counts.",
 ["inputs","programs"],"all stacks of decorators written in both marker families",
 "Two tests compare one parametrize and one skip marker.",
 ["python/rtest/mark.py","python/rtest/worker/runner.py"],[("_get_parametrize_specs","python/rtest/mark.py"),("_is_skipped","python/rtest/worker/runner.py")],["expand_parametrize(func)","records of the worker"])
p("C28","A test id runs the method that Python attribute lookup finds",
 "For every class hierarchy, the worker reports a case `Class::name` if and only if attribute lookup of `name` on the class gives a function, a static method, a class method or something that wraps one of them, but no fixture, and `name` matches; running it executes exactly that function, a method with an instance of the class itself. This covers overriding, aliases, several bases and methods disabled by a non-function in a subclass.",
 ["programs"],"all class hierarchies up to several levels with overriding, aliasing, multiple inheritance and disabling",
 "Only flat classes are tested with the worker.",
 ["python/rtest/worker/runner.py"],[("MRO walk in _discover_tests_in_module","python/rtest/worker/runner.py"),("getattr on the instance","python/rtest/worker/runner.py")],["events emitted by generated tests; records of the worker"])
p("C29","rtest.raises accepts exactly the expected exception",
 "A `with rtest.raises(E, match=m)` block completes normally if and only if its body raised an instance of E (or of a member of E) whose text matches m anywhere by regular expression search; only then is `.value` that exception. If the body raised nothing or the text does not match, an AssertionError is raised (chained to the original in the latter case); any other exception propagates unchanged, and invalid arguments are rejected before the body runs.",
 ["inputs","programs"],"all combinations of expected types (single, tuple, BaseException subclasses), raised objects, patterns and nested blocks",
 "Tests sample one exception of each kind; combinations of hierarchy, tuple and pattern are not covered.",
 ["python/rtest/raises.py"],[("RaisesContext.__exit__","python/rtest/raises.py")],["result of the with statement, .value"],
 [("value","the caught exception, None until the block ends","RaisesContext.value")])
p("C30","Test files are isolated from one another",
 "A file that fails to import, for any reason including SystemExit, yields exactly one error record naming it and changes neither the set nor the outcome of the records of the other files. Files with equal base names in different directories are all loaded from their own path, each file can import the modules beside it (of distinct names), in a package also by relative imports, and the records of a file do not depend on the order in which the files are given. While the tests of a file run, its module is registered under its name in `sys.modules`.",
 ["programs","histories"],"all sets and orders of files, with import failures of every kind at every position and equal names",
 "Existing worker tests run one file at a time.",
 ["python/rtest/worker/runner.py"],[("_import_module_from_file","python/rtest/worker/runner.py"),("import error records in run_tests","python/rtest/worker/runner.py")],["records of the worker; import events"])
p("C31","Name patterns select exactly the matching functions and classes",
 "The worker runs a function that a file defines at module level if and only if its name matches one of the function patterns, and a method if and only if its class's name matches one of the class patterns and its own name matches one of the function patterns, by shell-style matching (`*`, `?`, `[...]`) of the whole name. Patterns given on the worker's command line replace the defaults `Test*` and `test*`.",
 ["inputs","configurations"],"all pattern lists over all sets of names",
 "CLI tests that use patterns need the compiled extension; the stable suite only uses the defaults.",
 ["python/rtest/worker/runner.py","python/rtest/worker/__main__.py"],[("_is_test_function / _is_test_class","python/rtest/worker/runner.py"),("argparse options","python/rtest/worker/__main__.py")],["records of `python -m rtest.worker --python-classes ... --python-functions ...`"])
p("C32","Static collection finds every test exactly once",
 "Collection yields one id for every test of every collected file and no other id, and no id twice even if the given paths overlap or are spelled differently. Collected are the `.py` files whose name matches a `python_files` pattern and that are named by or lie below a given path (without paths: below the configured `testpaths`, else the root), not entering directories that `norecursedirs` leaves out unless they are given. Tests of a file are its top-level functions with a name matching `python_functions` and, for every top-level class matching `python_classes`, the methods with such a name that Python's attribute lookup finds on the class, its own or inherited, in whatever file of the import path the bases are and however they are imported; what counts is what a name is bound to in the end, by a definition, by assigning it a literal or another name, or by deleting it; fixtures and properties are no tests (out of scope: conditional definitions, other assigned values, classes under a second name), classes with an `__init__` have no tests, and what a class of the same file that is not itself a test class defines is not inherited.",
 ["inputs","configurations","programs"],"all directory trees, path lists, configured patterns, class hierarchies and import styles (absolute, aliased, relative, through packages, re-exported, sibling, PYTHONPATH)",
 "The collection tests sample a few projects and most need the compiled extension, which cannot be built here; the unit tests look at single files.",
 ["src/collection/nodes.rs","src/collection_integration.rs","src/python_discovery/semantic_analyzer.rs","src/python_discovery/module_resolver.rs"],
 [("Session::perform_collect / Directory::collect / Module::collect","src/collection/nodes.rs"),("SemanticTestDiscovery","src/python_discovery/semantic_analyzer.rs"),("ModuleResolver","src/python_discovery/module_resolver.rs"),("collect_tests_rust","src/collection_integration.rs")],
 ["collect_tests_rust(root, args): the node ids"])
p("C33","Collection problems are reported and stay where they are",
 "A given path that does not exist makes collection fail and is named. Otherwise every collected file that cannot be decoded or parsed, or one of whose test classes has a base class in such a file, is reported by exactly one error that names it and yields no test, and no other file is reported or loses a test because of it. A test class that is not collected because it or an ancestor has an `__init__` is reported by exactly one warning naming it, and there are no other such warnings.",
 ["inputs","programs","fault_sequences"],"all projects with any set of broken files, broken base modules, missing paths and classes with constructors",
 "Tests look at one broken file at a time.",
 ["src/collection/nodes.rs","src/collection_integration.rs","src/python_discovery/semantic_analyzer.rs"],
 [("perform_collect / collect_one_node","src/collection/nodes.rs"),("collect_items_recursive","src/collection_integration.rs"),("should_skip_class","src/python_discovery/semantic_analyzer.rs")],
 ["collect_tests_rust(root, args): errors, warnings, failure"])
p("C34","Expanded cases carry exactly pytest's ids",
 "A collected test with stacked `pytest.mark.parametrize` decorators (its own, those of its class or inherited) is shown either by exactly the ids that pytest gives its cases, each once and in pytest's order, or by its name alone together with exactly one warning that it cannot be expanded; every other test is shown by its name alone. It is expanded whenever all values are what the README lists (numbers, strings, booleans, None, lists and tuples of literals, constants of the module or of nested classes, enum members), the ids are literals, and pytest tells all cases apart by them. A test with `rtest.mark.cases` is expanded to one id per combination of entries, all different, or shown by its name with a warning.",
 ["inputs","programs"],"all stacks of decorators with any values, argument names and explicit ids, on functions, classes and inherited methods",
 "Unit tests sample a dozen decorators; a wrong id only shows when pytest is asked to run it, which the stable suite never does.",
 ["src/python_discovery/cases.rs","src/python_discovery/constant_resolver.rs","src/python_discovery/semantic_analyzer.rs"],
 [("parse_parametrize / pytest_value_id / expand_cases","src/python_discovery/cases.rs"),("ConstantResolver","src/python_discovery/constant_resolver.rs"),("combine_and_expand_specs per method","src/python_discovery/semantic_analyzer.rs")],
 ["collect_tests_rust(root, args): node ids and warnings"])
p("C35","A pytest run executes every selected case once",
 "A run with the default runner executes every case of every test collected under the given paths (or the configured `testpaths`, else the root), each exactly once and with the variables of every `--env` set, for every worker count, cap, distribution mode and layout of subprojects, and executes nothing else. It executes nothing when an option is invalid, a given path does not exist, some file cannot be collected, nothing is found or `--collect-only` is given. It exits 0 exactly when nothing of that went wrong (finding nothing and `--collect-only` are fine) and every case it executed did as expected, and with status 4 when a given path does not exist.",
 ["inputs","configurations","programs"],"all projects, path lists, configured patterns, subproject layouts, options and outcomes of cases",
 "No stable test runs the whole program: what is lost between collection, ids, distribution and pytest only shows end to end.",
 ["src/lib.rs","src/pyo3.rs","src/runner.rs","src/pytest_executor.rs","src/collection_integration.rs","src/subproject.rs","src/scheduler.rs"],
 [("main_cli_with_args","src/pyo3.rs"),("execute_tests / execute_tests_parallel","src/runner.rs"),("collect_tests_rust","src/collection_integration.rs")],
 ["what bodies of generated tests log while `python -m rtest ...` runs; its exit status"])
p("C36","A native run executes what was collected, once",
 "A run with `--runner native` executes every case of every test collected under the given paths (or the configured `testpaths`, else the root) exactly once, as long as files define their tests unconditionally by def and class statements, except that cases marked skip and files and directories whose name starts with `.` are not executed, for every worker count, cap and distribution mode, and executes nothing else; in particular nothing of a class that collection refuses for its `__init__`. It executes nothing when an option is invalid, a given path does not exist, some file cannot be collected, nothing is found or `--collect-only` is given. It exits 0 exactly when nothing of that went wrong (finding nothing and `--collect-only` are fine) and no executed case failed, and with status 4 when a given path does not exist.",
 ["inputs","configurations","programs"],"all projects, path lists, configured patterns, options and outcomes of cases",
 "Collection (Rust, static) and execution (Python, by import) find tests in two independent ways; whether they agree depends on the project.",
 ["src/pyo3.rs","src/native_runner.rs","src/collection_integration.rs","python/rtest/worker/runner.py","python/rtest/mark.py"],
 [("main_cli_with_args","src/pyo3.rs"),("execute_native","src/native_runner.rs"),("_discover_tests_in_module","python/rtest/worker/runner.py")],
 ["what bodies of generated tests log while `python -m rtest --runner native ...` runs; its exit status"])
p("C37","What is shown of a collection is what was found",
 "Before anything is executed the program prints, with either runner and with or without `--collect-only`, the id of every collected test or expanded case exactly once and no other id, their number, each file that cannot be collected exactly once with the number of such files, and each warning exactly once with their number. If a given path does not exist it prints no collection but names such a path; with an invalid option it prints no collection.",
 ["inputs","configurations"],"all projects, path lists, configured patterns and options",
 "The output is asserted for a few projects, in tests that cannot run without the compiled extension.",
 ["src/collection_integration.rs","src/pyo3.rs","src/utils.rs"],
 [("display_collection_results","src/collection_integration.rs"),("main_cli_with_args","src/pyo3.rs")],
 ["standard output and error of `python -m rtest ...`"])
p("C38","The Python interface runs what it collected, once",
 "A call of `rtest._rtest.run_tests(args)` takes its first argument, if that is an existing directory, as the root (else the current directory), hands arguments that start with `-` to pytest and collects under the others (or the configured `testpaths`, else the root). It executes every case of every collected test exactly once and nothing else, wherever the root lies and however it is spelled, and returns 0 exactly when every executed case did as expected or nothing was found. It executes nothing, and does not return 0, when a path does not exist or some file cannot be collected.",
 ["inputs","configurations","programs"],"all projects, roots (absolute, relative, the current directory), path lists, flags of pytest without separate values, outcomes of cases",
 "The tests of this function cannot run without the compiled extension and only pass absolute directories.",
 ["src/pyo3.rs","src/pytest_executor.rs","src/collection_integration.rs"],
 [("run_tests","src/pyo3.rs"),("execute_tests","src/pytest_executor.rs")],
 ["what bodies of generated tests log while run_tests runs; what it returns"])
p("C39","Tests run in as many processes as asked for",
 "The cases of a run with the native runner, and those of each subproject in a run with the pytest runner, execute in at most W processes, where W is what `-n` and `--maxprocesses` ask for (at least one; one for the pytest runner with `--dist no`), and in exactly min(W, units) processes if every unit executes something. Units are test files with the native runner and under `loadfile`, classes and modules under `loadscope`, and collected tests otherwise; what belongs to one unit (but under `load` and `worksteal`) executes in one process, and no process executes tests of two subprojects.",
 ["inputs","configurations"],"all projects, subproject layouts, worker counts, caps and distribution modes",
 "No stable test counts the processes of a whole run.",
 ["src/pyo3.rs","src/runner.rs","src/scheduler.rs","src/native_runner.rs","src/subproject.rs"],
 [("main_cli_with_args","src/pyo3.rs"),("execute_tests_parallel","src/runner.rs"),("execute_native","src/native_runner.rs")],
 ["process ids that bodies of generated tests log while `python -m rtest ...` runs"])
p("C40","Collection order is a function of the project",
 "The order of the collected ids does not depend on the order in which the file system lists directories or files were created: collecting the same project again gives the same ids, errors and warnings in the same order. The tests of a file follow each other, files come in the order of the first given path (else configured `testpaths`, else the root) under which they are found, below it depth first by name in byte order; in a file, functions come in the order of their definitions and so do classes and the methods that a class itself defines (out of scope: how functions and classes, own and inherited methods interleave, and names bound more than once).",
 ["inputs","histories"],"all directory trees, creation histories, path lists and class hierarchies",
 "Tests compare sets of ids, or projects of one or two files; the file system of one machine lists them in one order. Distribution to workers and comparing runs rest on this order.",
 ["src/collection/nodes.rs","src/collection_integration.rs","src/python_discovery/semantic_analyzer.rs"],
 [("Session::perform_collect / Directory::collect / Module::collect","src/collection/nodes.rs"),("collect_items_recursive","src/collection_integration.rs"),("SemanticTestDiscovery","src/python_discovery/semantic_analyzer.rs")],
 ["collect_tests_rust(root, args): the sequence of node ids"])
p("C41","A test that ends its process costs only that process's share",
 "If a case ends the process it runs in (an exit without clean-up, with any status under the native runner and any but 0 under pytest, or a fatal signal), the run exits with a failure, no case executes twice, as many processes are started as without it, and every case that is the share of another process, or with the pytest runner of another subproject, still executes; what is left out is at most the rest of one even share per process that ended.",
 ["inputs","configurations","crash_points"],"all projects, subproject layouts, options and positions of cases that end their process",
 "No stable test ends a process of a whole run; the unit tests of the runners use fixed commands.",
 ["src/pyo3.rs","src/runner.rs","src/pytest_executor.rs","src/native_runner.rs","python/rtest/worker/runner.py"],
 [("main_cli_with_args","src/pyo3.rs"),("execute_tests / execute_tests_parallel","src/runner.rs"),("execute_native / run_worker","src/native_runner.rs")],
 ["what bodies of generated tests log, and from which process, while `python -m rtest ...` runs; its exit status"])
with open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,S)
print(len(P))
