import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Every collected test is dispatched to exactly one worker batch",
"For every distribution mode, every list of test ids and every worker count of at least one, the batches handed to workers together contain exactly the given tests, each as often as it was given. No batch is empty and there are never more batches than workers. Inside a batch, tests of the same scope (class, or plain functions of one file) keep the relative order in which they were collected.",
["inputs","configurations"],"all lists of test ids (duplicates, any length, any characters), all worker counts >= 1, all five distribution modes",
"The unit tests sample lists of at most a few tests with 1 to 5 workers; the guarantee is over every list, every worker count and every mode, and a loss that needs a particular count/remainder combination passes them.",
["src/scheduler.rs"],[("round-robin assignment","src/scheduler.rs LoadScheduler/WorkStealScheduler::distribute_tests"),("grouping by key then round-robin of groups","src/scheduler.rs group_tests_by_key, distribute_groups_to_workers"),("edge cases","src/scheduler.rs validate_and_handle_edge_cases"),("single batch","src/scheduler.rs NoScheduler::distribute_tests")],
["return value of distributing a test list for a mode and worker count"])
p("C02","Tests of one file or scope are never split across workers",
"In file mode all tests of the same file, and in scope mode all tests of the same class of the same file (or all plain functions of the same file), are handed to a single worker, whatever appears in parametrisation ids. In 'no' mode everything goes to one worker.",
["inputs","configurations"],"all lists of test ids, including ids whose parametrisation suffix contains '::', '[' or spaces, all worker counts, file/scope/no modes",
"Tests sample a handful of ids with simple names; the guarantee is over every interleaving of scopes in the list and every id text.",
["src/scheduler.rs"],[("scope extraction","src/scheduler.rs extract_scope, extract_file"),("grouping","src/scheduler.rs group_tests_by_key"),("whole groups are assigned","src/scheduler.rs distribute_groups_to_workers")],
["return value of distributing a test list in loadscope/loadfile/no mode"])
p("C03","Load is spread evenly over the requested workers",
"In load and worksteal modes the batch sizes of any two workers differ by at most one and as many workers are used as there are tests, up to the requested count. In file and scope modes as many workers are used as there are files or scopes, up to the requested count. Distributing the same list twice gives the same batches.",
["inputs","configurations"],"all lists of test ids, all worker counts >= 1, load/worksteal/loadfile/loadscope modes",
"Unit tests pin a few exact splits (5 tests on 3 workers); evenness for every length and worker count is a statement about arithmetic they cannot settle.",
["src/scheduler.rs"],[("index modulo worker count","src/scheduler.rs distribute_tests, distribute_groups_to_workers"),("empty batches dropped","src/scheduler.rs filter(|w| !w.is_empty())")])
p("C04","A parallel run succeeds only if all tests ran and every worker succeeded",
"The parallel run with the pytest back end hands every collected test to exactly one started worker, for every worker count including zero. Its exit status is zero exactly when every worker process exited with status zero; a worker that failed, was killed by a signal or could not be started makes it non-zero, and so does an unsupported distribution mode.",
["inputs","configurations","fault_sequences"],"all test lists, worker counts, distribution modes, with and without subprojects, all combinations of per-worker exit statuses, signals and start failures",
"No existing test runs the parallel executor with failing workers at all; which worker fails, in which position, and how it ends is a fault sequence that a sample cannot cover.",
["src/runner.rs","src/worker.rs","src/pytest_executor.rs"],[("batch loop and exit status fold","src/runner.rs execute_tests_parallel"),("start failure / signal mapped to -1","src/worker.rs spawn_worker, wait_for_all"),("sequential executor","src/pytest_executor.rs execute_tests")],
["exit status and the command lines of the started worker processes"])
p("C05","Each worker process runs exactly the requested command and its result is kept",
"A worker (and the sequential executor) starts the given program with the initial arguments, the root directory option, the tests and the extra arguments in that order, with the requested working directory and all requested environment assignments. Waiting for the workers yields exactly one result per started worker, carrying that worker's own id, exit status, stdout and stderr, in ascending id order. The sequential executor returns its process's exit status, and a non-zero one when the process was killed by a signal or could not be started.",
["inputs","schedules","fault_sequences"],"all argument vectors, environments and directories, any number of workers, any completion order, any exit status or start failure",
"Tests run echo with one or two words; argument order, environment and result attribution under every completion order are not sampled.",
["src/worker.rs","src/pytest_executor.rs"],[("command construction","src/worker.rs WorkerPool::spawn_worker; src/pytest_executor.rs execute_tests"),("join and sort","src/worker.rs WorkerPool::wait_for_all")])
p("C06","Every test is grouped under its nearest subproject, and only there",
"Grouping collected tests by subproject, the root being given by its resolved path, puts each test id in exactly one group, in collection order, and loses none, including tests reached through symbolic links, parent-directory segments or missing files. The group is the nearest directory strictly below the root, among the directories containing the resolved test file, that holds a pyproject.toml; when there is none, or the resolved file is outside the root or missing, it is the root.",
["inputs","configurations"],"all directory trees (nested pyproject.toml, symlinks), all test ids, root given as a canonical path",
"There is no test of the grouping; nearest-ancestor and no-loss are statements over every tree layout.",
["src/subproject.rs"],[("nearest ancestor search","src/subproject.rs find_subproject_root"),("grouping","src/subproject.rs group_tests_by_subproject")])
p("C07","Re-rooting a test id keeps denoting the same test",
"When test ids are rewritten relative to a subproject directory inside the root, each rewritten id, joined to that directory, denotes the same file as the original id joined to the original root, and everything after the first '::' is kept unchanged. Ids whose file is not inside the new directory are left unchanged, and the number and order of ids is kept.",
["inputs"],"all ids, all pairs of old root and new directory",
"One unit test covers three ids with plain relative paths; ids with several '::', path separators or '::' inside parameters are unbounded inputs.",
["src/subproject.rs"],[("prefix stripping","src/subproject.rs make_test_paths_relative, split_test_node")])
p("C08","Native runner gives every test file to exactly one worker, evenly",
"For every list of test files and every worker count of at least one, the native runner's shards contain each file exactly once, in order inside a shard, no shard is empty, the number of shards is the smaller of files and workers, and shard sizes differ by at most one.",
["inputs","configurations"],"all file lists and worker counts",
"Unit tests sample five files on two or three workers.",
["src/native_runner.rs"],[("round-robin sharding","src/native_runner.rs shard_files")])
p("C09","Native result tally loses and invents nothing",
"The tally over all worker reports counts every reported result exactly once: passed, failed, error and skipped add up to the total, which is the number of results. Every failed and every error result is listed, in report order, and a result with an unknown outcome counts as an error. Every non-blank line of a worker report is read as one result in order, and a malformed line or unreadable report is reported as an error, never skipped.",
["inputs","fault_sequences"],"all report contents (any outcome strings, any number of workers and lines, truncated or malformed lines)",
"Tests aggregate two or three handmade results; conservation over every report and every truncation point is not sampled.",
["src/native_runner.rs"],[("tally","src/native_runner.rs aggregate_results"),("report reading","src/native_runner.rs parse_results_file")])
p("C10","A native run reports success only if every worker reported and nothing failed",
"The native run exits with status zero exactly when every worker could be started, ended with an expected status (zero or one) and left a readable report (every line parses), and no reported result is failed, in error or unknown. A worker that crashed, was killed, or left a missing or malformed report makes the status non-zero.",
["inputs","crash_points","fault_sequences"],"all combinations of worker exit statuses and report contents, including a crash of any worker before, while or after writing its report",
"Existing tests run only healthy workers; the crash points of a worker and the combination with other workers' reports are not exercised.",
["src/native_runner.rs"],[("worker command and status check","src/native_runner.rs run_worker"),("joining, report reading, exit status","src/native_runner.rs execute_native")],
["process exit status of a native run with a scripted worker"])
p("C11","Native file discovery finds exactly the matching test files",
"Starting from the given directories and files (or the root when none are given), discovery returns, each exactly once, the regular (not symbolically linked) .py files whose name matches one of the file patterns and which are not below a hidden or __pycache__ directory of the starting directory, nor hidden themselves, and nothing else, in sorted order. An explicitly named file is returned exactly when it exists, is a .py file and matches, and relative arguments are taken from the root.",
["inputs","configurations"],"all directory trees with UTF-8 names, pattern lists and argument lists; the starting directory itself may have any name",
"Unit tests build one or two small trees; exactness over every tree and pattern list (no file missed, none added) cannot be sampled.",
["src/native_runner.rs","src/collection/utils.rs"],[("tree walk with pruning","src/native_runner.rs collect_test_files_in_dir, is_hidden_or_ignored"),("file filter","src/native_runner.rs is_test_file; src/collection/utils.rs glob_match"),("argument resolution","src/native_runner.rs collect_test_files")])
p("C12","Worker-count and distribution options are honoured exactly",
"The number of workers is the requested number (the machine's physical or logical processors for 'auto' and 'logical', one when nothing is requested), limited by the maximum when one is given. A request that is neither 'auto', 'logical' nor a non-negative decimal number is rejected, and exactly the modes load, loadscope, loadfile, worksteal and no are accepted as distribution mode, each printing back as the name it was given by.",
["inputs","configurations"],"all option strings and all numbers representable as machine words",
"Tests sample 4, auto and a few mode names; acceptance of exactly these strings is a statement over all strings.",
["src/cli.rs","src/utils.rs","src/scheduler.rs"],[("count parsing","src/cli.rs Args::get_num_processes"),("mode parsing and printing","src/scheduler.rs DistributionMode FromStr/Display; src/cli.rs validate_dist"),("limit","src/utils.rs determine_worker_count")])
p("C13","Environment assignments reach the tests unchanged",
"Each KEY=VALUE option is split at its first '=' only, so values may contain '=' or be empty, and the assignments are kept in the order given. Options without '=' are skipped and affect nothing else.",
["inputs"],"all lists of option strings",
"One unit test samples three strings; values containing '=' and mixed valid/invalid lists are not covered.",
["src/runner.rs"],[("splitting at the first '='","src/runner.rs PytestRunner::new")])
p("C14","Project configuration is read faithfully and never breaks a run",
"Each of the four list options (test paths, file, class and function patterns) under the pytest section of pyproject.toml yields exactly its string entries in order, independently of the other options. An absent or unreadable file, malformed TOML, a missing section, a non-list value or non-string entries never cause a failure: the affected option or entry is ignored and everything else is kept.",
["inputs","configurations"],"all pyproject.toml contents",
"Tests sample a few well-formed files; independence of the options and tolerance for every malformed content is universal.",
["src/config.rs"],[("option extraction","src/config.rs read_pytest_config")])
p("C15","Case decorators expand to the full cartesian product with correct arguments",
"A test with stacked case decorators expands to exactly one case per element of the cartesian product of the decorators' value lists, in product order with the decorator applied last varying fastest, and a test without decorators to exactly one case without id. In each case every named argument is bound to the value at its position, and a multi-name entry of the wrong shape is rejected with an error rather than mis-bound. Decorating never replaces the decorated test.",
["inputs","programs"],"all decorator stacks, name lists, value lists and id lists",
"Tests sample one or two decorators with two or three values; the product law and the name-to-position binding hold over all stacks.",
["python/rtest/mark.py"],[("single decorator expansion","python/rtest/mark.py _expand_single_spec"),("product and merge","python/rtest/mark.py expand_parametrize"),("decorators","python/rtest/mark.py Mark.cases, Mark.skip")])
p("C16","Case ids of a test are unique and attached to their own values",
"For every stack of case decorators, with or without explicit ids, the case ids of one test are pairwise different, both at run time and as computed during collection. The ids of one decorator number one per value, and the id at a position is the explicit id given for that position or else, at run time, the text of that value, changed only by a numeric suffix when it would repeat an id already used.",
["inputs"],"all lists of ids and values, including ids that look like suffixed ones ('a', 'a', 'a_1')",
"Tests use short lists with distinct or simply repeated ids; collisions between generated suffixes and given ids are not covered.",
["python/rtest/mark.py","src/python_discovery/cases.rs"],[("suffixing of repeated ids (run time)","python/rtest/mark.py _deduplicate_ids, _expand_single_spec, expand_parametrize"),("suffixing of repeated ids (collection)","src/python_discovery/cases.rs deduplicate_ids, expand_single_spec")])
p("C17","The raises helper passes only on the expected exception and hides nothing",
"A block guarded by the raises helper succeeds exactly when it raises an instance of one of the expected exception types whose text matches the given pattern when there is one, and the exception is then available to the test. If nothing is raised, or the text does not match, an assertion error is raised; any other exception propagates unchanged. Arguments that are not exception types, an empty tuple and an invalid pattern are rejected when the helper is created.",
["inputs","programs"],"all expected types and tuples, patterns and raised exceptions",
"Tests sample a few exception/pattern pairs.",
["python/rtest/raises.py"],[("exit handler","python/rtest/raises.py RaisesContext.__exit__"),("argument validation","python/rtest/raises.py raises, RaisesContext.__init__")])
p("C18","Each native test gets the outcome its execution had",
"A test is reported passed only if its setup, its body with its own arguments and its teardown all completed without raising; an assertion error is reported failed and any other exception except a keyboard interrupt, including an attempt to exit the interpreter, is reported error with the exception's type. Teardown runs whenever setup completed, on a fresh instance per test, and a skipped test executes nothing and is reported skipped with its reason. Output written by the test is captured in its own result only.",
["inputs","programs","fault_sequences"],"all combinations of raising or completing in constructor, setup, body and teardown, skip flags, arguments and exception types",
"Tests sample passing, asserting and erroring bodies; combinations with setup/teardown faults and non-ordinary exceptions are not covered.",
["python/rtest/worker/runner.py"],[("single test execution","python/rtest/worker/runner.py _run_single_test")])
p("C19","A native worker reports exactly one result per discovered case",
"A worker's report contains exactly one result for each discovered test case and one error result for each file that cannot be imported (or whose tests cannot be discovered), with import errors first and test results ordered by node id; one file's import error, whatever exception short of a keyboard interrupt it is, never suppresses another file's tests. When the files are imported, the root and the directory of every test file are on the import path. The worker exits with status one exactly when some result is failed or error, and zero otherwise.",
["inputs","programs","fault_sequences"],"all sets of files, importable or not, with any mix of outcomes",
"Tests sample one or two files; conservation over every mix of import failures and outcomes is universal.",
["python/rtest/worker/runner.py"],[("discovery, execution and report loop","python/rtest/worker/runner.py run_tests")])
p("C20","Worker discovery yields every matching test exactly once",
"For a module, discovery yields exactly the functions whose name matches a function pattern and, for each class whose name matches a class pattern, each matching method of the class or its bases exactly once under that class, with no id given twice for distinct tests. A test is skipped exactly when it or its class is marked skip, with the test's own reason taking precedence.",
["inputs","programs"],"all modules, class hierarchies, name patterns and skip marks",
"Tests sample one-level inheritance; diamonds, overrides and skip combinations are not covered.",
["python/rtest/worker/runner.py"],[("module walk","python/rtest/worker/runner.py _discover_tests_in_module, _is_test_function, _is_test_class"),("skip marks","python/rtest/worker/runner.py _is_skipped")])
p("C21","Static case expansion covers the same product as the run-time one",
"During collection, the cases computed for statically known decorators are the full cartesian product of the decorators' ids, in the run-time product order, with class-level decorators acting as if stacked above the method's own, and nothing is expanded when any decorator cannot be evaluated statically. The id text of a literal is the one the value has at run time for integers, booleans, None and printable ASCII text without backslashes. A name or dotted name counts as known only where it leads, through classes of the module, to a name whose only binding in its scope is one assignment of a literal, and, in the decorators of a method, is not a name the class body itself binds; it then stands for the value assigned.",
["inputs","programs"],"all lists of specifications and literal values, and all module bodies the names may be bound in",
"The collection tests need the missing parser submodule and do not run here; even there they sample a few stacks.",
["src/python_discovery/cases.rs","src/python_discovery/constant_resolver.rs"],[("constants","src/python_discovery/constant_resolver.rs from_statements, resolve_path, resolve, for_class_body"),("product","src/python_discovery/cases.rs expand_cases, expand_single_spec, combine_and_expand_specs"),("id text","src/python_discovery/cases.rs literal_to_id_string, ascii_escape_string")])
p("C22","Imported base classes come from the module Python would import",
"When the base class of a test class comes from an import, collection looks for it in the module Python would import. A relative import with n leading dots names the module obtained by dropping the last n components of the importing module's dotted path (n-1 when the importer is a package's __init__.py, whose first dot is the package itself) and appending the named module; an absolute import names its module as written. `from package import module` binds that submodule, so `module.Base` is looked up there; an alias, and a later import of the same name, rebinds the name. Too many dots never resolve to a module. The importing module's own dotted path is its place below the root without '.py', a package being its directory. The module is the first one found in the directories of PYTHONPATH in order, then the project root, a package being preferred to a file of the same name; a built-in module is never looked for in files, and a file found but unreadable or unparsable is an error rather than a missing module.",
["inputs"],"all module paths, import statements, dot counts, aliases, base-class expressions, search paths and file systems",
"No running test covers it; correctness is arithmetic over every depth and import form.",
["src/python_discovery/semantic_analyzer.rs","src/python_discovery/module_resolver.rs","src/python_discovery/discovery.rs"],[("lookup","src/python_discovery/module_resolver.rs resolve_with_search_paths, resolve_and_load"),("own path","src/python_discovery/discovery.rs path_to_module_path"),("component dropping","src/python_discovery/semantic_analyzer.rs resolve_relative_module_path"),("names bound by imports","src/python_discovery/semantic_analyzer.rs collect_imports_impl"),("base-class expressions","src/python_discovery/semantic_analyzer.rs resolve_base_class")])
p("C23","Name patterns select names as documented",
"A class or function name pattern selects a name exactly when shell-style matching does, when collecting as well as at run time: in particular 'x*' selects exactly the names starting with x, '*x' those ending with x, '*x*' those containing x, '*' may also stand in the middle, and a pattern without wildcards selects exactly the equal name.",
["inputs"],"all pattern and name strings",
"Tests sample eight pairs.",
["src/python_discovery/pattern.rs","python/rtest/worker/runner.py"],[("collection patterns","src/python_discovery/pattern.rs matches"),("run-time patterns","python/rtest/worker/runner.py _is_test_function, _is_test_class")])
p("C24","Static collection lists every test function and method of a file exactly once",
"For a file that parses, collection lists exactly the module-level functions whose name matches a function pattern and, for each module-level class whose name matches a class pattern, every matching method the class defines or inherits, each exactly once under that class: no (class, name) pair is listed twice, a name defined again counts by its last definition, and a method the class or an earlier base defines is not listed again for a later one. Bases are followed through any number of modules, whether or not the base itself matches a class pattern, and in diamonds; bases of the standard library and bases that cannot be told statically contribute nothing. A class that has a constructor, or inherits one from such a base, is left out and gets one warning naming it. Collection of a file fails only if the file does not parse, a module it follows cannot be read, or a hierarchy goes round in a circle.",
["inputs","programs"],"all modules, class hierarchies and name patterns",
"The discovery tests need the missing parser submodule and do not run here; even there they sample one- and two-level hierarchies. Exactly-once over every hierarchy, override, diamond and redefinition is universal.",
["src/python_discovery/semantic_analyzer.rs"],[("listing of a file","src/python_discovery/semantic_analyzer.rs discover_tests, collect_class_tests, collect_test_methods"),("inheritance","src/python_discovery/semantic_analyzer.rs get_base_class_methods_impl, ensure_module_loaded, collect_test_classes, collect_base_class_names"),("constructors","src/python_discovery/semantic_analyzer.rs should_skip_class, base_class_has_init_impl")])
p("C25","Collection lists exactly the tests of the files it reaches",
"Collecting a project lists, each id once, the tests of exactly the test files reached from the start paths: the given arguments, else the configured test paths, else the root. A file is reached if its name matches a file pattern and no directory on the way down from the start path (the start path itself excluded) is __pycache__ or matches a directory name that is not recursed into. The file, class and function patterns are the ones configured in pyproject.toml, an option not configured keeping its default. A test's id is its file's path relative to the root (or in full, outside it), class, name and case. A file that cannot be read or parsed is reported as an error under its own id and hides no other file; a test whose cases cannot be determined is listed once without case and warned about; a given path that does not exist fails the collection.",
["inputs","configurations"],"all directory trees, configurations and argument lists",
"The collection tests need the missing parser submodule and do not run here; even there they sample small trees. Completeness over every tree, configuration and mix of broken files is universal.",
["src/collection/nodes.rs","src/collection_integration.rs","src/python_discovery/discovery.rs"],[("start paths and pruning","src/collection/nodes.rs Session::perform_collect, should_ignore_path, Directory::collect"),("tests of a file","src/collection/nodes.rs Module::collect; src/python_discovery/discovery.rs test_info_to_functions"),("the walk, errors and warnings","src/collection_integration.rs collect_tests_rust, collect_items_recursive")])
p("C26","A run executes exactly what was collected and ends with its outcome",
"A run from the command line always ends with an exit code, decided in this order. A distribution mode or a number of processes that is not valid: 1. A given path that does not exist: 4. A collection that failed or has any collection error: 1. No tests, or --collect-only: 0. In each of these cases nothing is started. Otherwise, with the pytest runner, every collected test is handed out exactly once to processes of the current Python (-m pytest), run in the project directory the test belongs to, with the requested environment; one process per project directory if one worker or --dist no was asked for. With the native runner, every test file below the start paths (the arguments, else the configured test paths, else the root) that matches the configured file patterns is given to exactly one worker of the current Python, with the configured class and function patterns. The exit code is 0 exactly if every process and test succeeded. The library call run_tests takes the root from its first argument if that is an existing path, hands all tests collected there to one pytest process together with the remaining arguments, and returns 0 exactly if it succeeded or there was nothing to run.",
["inputs","configurations"],"all command lines, configurations, project trees and outcomes of the processes started",
"The entry points live in the Python extension, which does not build here: no test runs them. The decision covers every combination of options, collection outcome and process outcome, of which integration tests sample a few.",
["src/pyo3.rs","src/native_runner.rs"],[("the run","src/pyo3.rs main_cli_with_args, run_tests, handle_collection_error"),("the Python used","src/pyo3.rs PytestRunner::from_current_python, from_current_python_with_env, get_python_executable"),("native workers","src/native_runner.rs execute_native, run_worker")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
