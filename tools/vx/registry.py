"""Which contracts and which executable replays decide which property."""
SCHED = ["validate_and_handle_edge_cases", "distribute_groups_to_workers", "group_tests_by_key", "LoadScheduler::distribute_tests", "WorkStealScheduler::distribute_tests",
         "LoadScopeScheduler::distribute_tests", "LoadFileScheduler::distribute_tests", "NoScheduler::distribute_tests", "create_scheduler"]
WORKER = ["WorkerPool::new", "WorkerPool::spawn_worker", "WorkerPool::wait_for_all"]
GROUP = ["find_subproject_root", "group_tests_by_subproject"]
PYM = ["_expand_single_spec", "expand_parametrize"]
PYM_GET = ["_get_parametrize_specs", "_extract_pytest_marker_args"]
PYM_ID = ["_deduplicate_ids", "_value_to_id_string"]
CASES = ["deduplicate_ids", "expand_single_spec", "expand_cases", "combine_and_expand_specs"]
PROPS = {
    "C01": {"units": {"scheduler": {"core": SCHED, "deps": ["extract_scope", "extract_file"]}}, "replay": ["scheduler"]},
    "C02": {"units": {"scheduler": {"core": SCHED + ["extract_scope", "extract_file"]}}, "replay": ["scheduler"]},
    "C03": {"units": {"scheduler": {"core": SCHED, "deps": ["extract_scope", "extract_file"]}}, "replay": ["scheduler"]},
    "C07": {"units": {"reroot": {"core": ["make_test_paths_relative"]}}, "replay": ["subproject"]},
    "C08": {"units": {"shard": {"core": ["shard_files"]}, "native": {"core": ["run_worker", "execute_native"], "deps": ["parse_results_file"]}}, "replay": ["native"]},
    "C09": {"units": {"tally": {"core": ["aggregate_results"]}, "native": {"core": ["parse_results_file"], "deps": ["execute_native", "run_worker"]}}, "replay": ["native"]},
    "C10": {"units": {"native": {"core": ["parse_results_file", "run_worker", "execute_native"]}, "shard": {"core": [], "deps": ["shard_files"]}, "tally": {"core": [], "deps": ["aggregate_results"]}}, "replay": ["native"]},
    "C11": {"units": {"globs": {"core": ["glob_match"]}, "walk": {"core": ["is_hidden_or_ignored", "is_test_file", "collect_test_files_in_dir", "collect_test_files"]}}, "replay": ["native"]},
    "C04": {"units": {"runner": {"core": ["execute_tests_parallel"]}, "scheduler": {"core": [], "deps": SCHED + ["extract_scope", "extract_file"]}, "options": {"core": [], "deps": ["DistributionMode::from_str"]},
                      "worker": {"core": [], "deps": WORKER}, "group": {"core": [], "deps": GROUP}, "reroot": {"core": [], "deps": ["make_test_paths_relative"]}}, "replay": ["run"]},
    "C05": {"units": {"worker": {"core": WORKER}, "executor": {"core": ["execute_tests"]}}, "replay": ["run"]},
    "C06": {"units": {"group": {"core": GROUP}}, "replay": ["subproject"]},
    "C12": {"units": {"options": {"core": None}}, "replay": ["cli"]},
    "C13": {"units": {"envs": {"core": ["PytestRunner::new"]}, "main": {"core": ["PytestRunner::from_current_python_with_env"], "labelled": ["PytestRunner::from_current_python_with_env"]}, "worker": {"core": ["WorkerPool::spawn_worker"], "labelled": ["WorkerPool::spawn_worker"]}, "executor": {"core": ["execute_tests"], "labelled": ["execute_tests"]}, "runner": {"core": ["execute_tests_parallel"], "labelled": ["execute_tests_parallel"]},
                      "scheduler": {"core": [], "deps": SCHED + ["extract_scope", "extract_file"]}, "group": {"core": [], "deps": GROUP}, "reroot": {"core": [], "deps": ["make_test_paths_relative"]}, "options": {"core": [], "deps": ["DistributionMode::from_str"]}}, "replay": ["run"]},
    "C14": {"units": {"config": {"core": ["read_pytest_config"]}}, "replay": ["config"]},
    "C15": {"units": {"pymark": {"core": PYM + PYM_GET, "deps": PYM_ID}, "pydec": {"core": None}}, "replay": ["pymark"]},
    "C16": {"units": {"pymark": {"core": PYM + PYM_ID + ["get_case_nodeid_suffix"], "deps": PYM_GET}, "cases": {"core": CASES, "deps": ["literal_to_id_string", "ascii_escape_string"]}, "decor": {"core": ["parse_decorators_for_cases"], "labelled": ["parse_decorators_for_cases"], "deps": ["parse_single_decorator", "extract_argvalues", "extract_literal", "extract_ids_kwarg", "contains_opaque"]}, "consts": {"core": [], "deps": ["ConstantResolver::resolve", "expr_to_path", "ConstantScope::resolve_path"]}}, "replay": ["pymark", "static"]},
    "C21": {"units": {"cases": {"core": None}, "decor": {"core": None}, "consts": {"core": None}}, "replay": ["static"]},
    "C18": {"units": {"pyrun": {"core": None}}, "replay": ["pyrun"]},
    "C19": {"units": {"pyrep": {"core": None}, "pyrun": {"core": [], "deps": ["_run_single_test"]}}, "replay": ["pyrep"]},
    "C20": {"units": {"pydisc": {"core": None}}, "replay": ["pydisc"]},
    "C22": {"units": {"imports": {"core": None}, "modules": {"core": None}}, "replay": ["imports"]},
    "C23": {"units": {"globs": {"core": ["glob_match"]}, "pattern": {"core": None}, "pydisc": {"core": ["_is_test_function", "_is_test_class"]}}, "replay": ["pattern", "pydisc"]},
    "C24": {"units": {"inherit": {"core": None}, "imports": {"core": [], "deps": ["SemanticTestDiscovery::resolve_base_class", "SemanticTestDiscovery::collect_imports_impl", "SemanticTestDiscovery::resolve_relative_module_path"]},
                      "modules": {"core": [], "deps": ["ModuleResolver::resolve_and_load", "ModuleResolver::new", "ModuleResolver::resolve_with_search_paths", "ModuleResolver::load_module", "path_to_module_path"]},
                      "pattern": {"core": [], "deps": ["SemanticTestDiscovery::is_test_function", "SemanticTestDiscovery::is_test_class", "matches"]}, "globs": {"core": [], "deps": ["glob_match"]}}, "replay": ["inherit"]},
    "C25": {"units": {"collect": {"core": None}, "globs": {"core": [], "deps": ["glob_match"]}, "config": {"core": [], "deps": ["read_pytest_config"]}}, "replay": ["collect"]},
    "C26": {"units": {"main": {"core": None}, "native": {"core": ["run_worker", "execute_native"], "labelled": ["run_worker", "execute_native"], "deps": ["parse_results_file"]}, "walk": {"core": [], "deps": ["collect_test_files"]},
                      "runner": {"core": [], "deps": ["execute_tests_parallel"]}, "executor": {"core": [], "deps": ["execute_tests"]}, "options": {"core": [], "deps": ["Args::get_num_processes", "Args::validate_dist", "determine_worker_count"]},
                      "config": {"core": [], "deps": ["read_pytest_config"]}, "group": {"core": [], "deps": GROUP}, "reroot": {"core": [], "deps": ["make_test_paths_relative"]}}, "replay": ["main"]},
    "C17": {"units": {"pyraises": {"core": None}}, "replay": ["pyraises"]},
}
NOTE_RUST = ("Machine-checked: every obligation of the functions under contract is discharged by Verus for all inputs, on text extracted mechanically from /repo on this run. "
             "Trusted: the extraction (tools/rx, tools/vx), the contracts stated for std and dependency items in prelude/, Verus/Z3. The bounded replay on the real code is a cross-check only.")
NOTE_PY = ("Machine-checked: every obligation of the functions under contract is discharged by Verus for all inputs, on text translated mechanically from /repo's Python source on this run. "
           "Trusted: the translation (tools/vx/py2verus.py over CPython's ast), the contracts stated in prelude/py.rs for Python built-ins and library calls, Verus/Z3. Values are treated as immutable (aliased changes are rejected by the translator). The bounded replay on the real code is a cross-check only.")
PYPROPS = {"C15", "C16", "C17", "C18", "C19", "C20"}
for _k, _p in PROPS.items():
    _p.setdefault("note", NOTE_PY if _k in PYPROPS else NOTE_RUST)
    if _k in PYPROPS:
        _p.setdefault("trusted", []).append("tools/vx/py2verus.py: the mechanical translation of the Python functions (CPython ast), prelude/py.rs: contracts of built-ins")
    if {"static", "imports", "pattern", "collect", "inherit", "main"} & set(_p["replay"]):
        _p.setdefault("trusted", []).append("replay/stubs: stand-ins for the ruff parser crates (absent from the sandbox), used only by the executable replay")
NOT_CLAIMED = {}
