S = "src/scheduler.rs"
seed("c01-dup-in-group", "C01", S, [("        groups.entry(key).or_default().push(test);", "        let group = groups.entry(key).or_default();\n        if group.last() != Some(&test) {\n            group.push(test);\n        }")],
'''use rtest::{create_scheduler, DistributionMode};
fn main() {
    let tests: Vec<String> = ["a.py::t[1]", "a.py::t[1]", "b.py::t", "a.py::u"].iter().map(|s| s.to_string()).collect();
    for mode in [DistributionMode::LoadFile, DistributionMode::LoadScope, DistributionMode::Load] {
        let mut got: Vec<String> = create_scheduler(mode.clone()).distribute_tests(tests.clone(), 2).concat();
        let mut want = tests.clone();
        got.sort();
        want.sort();
        assert_eq!(got, want, "{mode}");
    }
}
''', "a test id that occurs twice in a row within one file or scope, in a grouping mode with at least two workers", "a repeated test id is handed out once instead of twice")
seed("c01-big-suite-remainder", "C01", S, [("""        // when one worker finishes early, there are still tests available for stealing
        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }
""", """        // when one worker finishes early, there are still tests available for stealing
        if tests.len() > 8 * num_workers {
            // Large suites are dealt out in rounds of one block per worker
            let block = tests.len() / (4 * num_workers);
            for (i, chunk) in tests.chunks_exact(block).enumerate() {
                workers[i % num_workers].extend_from_slice(chunk);
            }
        } else {
            for (i, test) in tests.into_iter().enumerate() {
                workers[i % num_workers].push(test);
            }
        }
""")],
'''use rtest::{create_scheduler, DistributionMode};
fn main() {
    for n in 1..60usize {
        let tests: Vec<String> = (0..n).map(|i| format!("f.py::t{i}")).collect();
        let got = create_scheduler(DistributionMode::WorkSteal).distribute_tests(tests, 3).concat().len();
        assert_eq!(got, n, "tests handed out");
    }
}
''', "worksteal mode with more than eight tests per worker and a count that does not divide", "the tests left over after the last full block are never handed to a worker")
seed("c02-split-large-file", "C02", S, [("        workers[i % num_workers].extend(group);", """        let share = group.len() / num_workers;
        for (j, test) in group.into_iter().enumerate() {
            // A single file with far more tests than workers is shared out
            let offset = if share >= 8 { j / share } else { 0 };
            workers[(i + offset) % num_workers].push(test);
        }""")],
'''use rtest::{create_scheduler, DistributionMode};
fn main() {
    for n in [4usize, 8, 40] {
        let mut tests: Vec<String> = (0..n).map(|i| format!("big.py::t{i}")).collect();
        tests.push("a.py::t".into());
        let b = create_scheduler(DistributionMode::LoadFile).distribute_tests(tests, 2);
        let with_big = b.iter().filter(|w| w.iter().any(|t| t.starts_with("big.py"))).count();
        assert_eq!(with_big, 1, "{n} tests of one file");
    }
}
''', "one file (or scope) with at least eight times as many tests as workers", "the tests of one large file are split over several workers")
seed("c03-contiguous-groups", "C03", S, [("    for (i, group) in groups.into_iter().enumerate() {\n        workers[i % num_workers].extend(group);", """    // Neighbouring files tend to share fixtures: long lists are cut into runs of files
    let run = if groups.len() > 2 * num_workers {
        groups.len().div_ceil(num_workers)
    } else {
        1
    };
    for (i, group) in groups.into_iter().enumerate() {
        workers[(i / run) % num_workers].extend(group);""")],
"""use rtest::{create_scheduler, DistributionMode};
fn main() {
    for n in 1..=9usize {
        let tests: Vec<String> = (0..n).map(|i| format!("f{i}.py::t")).collect();
        let b = create_scheduler(DistributionMode::LoadFile).distribute_tests(tests, 4);
        assert_eq!(b.len(), n.min(4), "workers used for {n} files");
    }
}
""", "more than twice as many files as workers, and a file count for which rounding up leaves a worker without files (9 files on 4 workers)", "a requested worker gets no tests although there are enough files")
R = "src/runner.rs"
PAR = """use rtest::{execute_tests_parallel, ParallelExecutionConfig};
use std::os::unix::fs::PermissionsExt;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    let script = dir.join("prog.sh");
    std::fs::write(&script, r#"#!/bin/sh
BODY
"#).unwrap();
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
"""
seed("c04-signal-lost", "C04", R, [("""            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}
""", """            // The most severe status of all workers
            overall_exit_code = overall_exit_code.max(result.exit_code);
        }

        overall_exit_code
    }
}
""")],
PAR.replace("BODY", 'for a in "$@"; do case "$a" in *kill*) kill -9 $$;; *fail*) exit 3;; esac; done; exit 0') + """
    let run = |tests: &[&str], n: usize| {
        execute_tests_parallel(&ParallelExecutionConfig { program: script.to_str().unwrap(), initial_args: &[], worker_count: n, dist_mode: "load", rootpath: &dir, use_subprojects: false, env_vars: &[] },
            tests.iter().map(|s| s.to_string()).collect())
    };
    assert_eq!(run(&["a.py::x", "a.py::y"], 2), 0);
    assert_ne!(run(&["a.py::fail", "a.py::y"], 2), 0);
    assert_ne!(run(&["a.py::kill"], 2), 0);
    assert_ne!(run(&["a.py::x", "a.py::kill"], 2), 0, "a worker was killed");
}
""", "a worker killed by a signal (or not startable) while no worker fails with a positive status, without subprojects", "a run whose worker was killed reports success")
seed("c04-group-cap", "C04", R, [("        for (subproject_root, tests) in test_groups {", """        for (subproject_root, tests) in test_groups {
            if worker_id >= 4 * worker_count {
                // Enough processes are busy already
                log::info!("Deferring {} tests", tests.len());
                continue;
            }""")],
PAR.replace("BODY", 'echo "$@" >> "$(dirname "$0")/log"') + """
    let mut tests: Vec<String> = vec![];
    for i in 0..6 {
        std::fs::create_dir_all(dir.join(format!("p{i}"))).unwrap();
        std::fs::write(dir.join(format!("p{i}/pyproject.toml")), "").unwrap();
        std::fs::write(dir.join(format!("p{i}/t.py")), "").unwrap();
        tests.push(format!("p{i}/t.py::test_{i}_"));
    }
    let r = execute_tests_parallel(&ParallelExecutionConfig { program: script.to_str().unwrap(), initial_args: &[], worker_count: 1, dist_mode: "load", rootpath: &dir, use_subprojects: true, env_vars: &[] }, tests);
    assert_eq!(r, 0);
    let log = std::fs::read_to_string(dir.join("log")).unwrap();
    for i in 0..6 {
        assert!(log.contains(&format!("test_{i}_")), "test {i} was never handed to a worker");
    }
}
""", "subproject mode with more subprojects than four times the worker count", "the tests of the remaining subprojects are never run and the run reports success")
W = "src/worker.rs"
seed("c05-results-merged", "C05", W, [("        results.sort_by_key(|r| r.worker_id);", "        results.sort_by_key(|r| r.worker_id);\n        // One line of output per worker\n        results.dedup_by_key(|r| r.worker_id);")],
"""use rtest::{WorkerPool, WorkerTask};
fn main() {
    let mut pool = WorkerPool::new();
    for (id, word) in [(2, "a"), (1, "b"), (2, "c")] {
        pool.spawn_worker(WorkerTask { worker_id: id, program: "echo".into(), initial_args: vec![], tests: vec![word.into()], pytest_args: vec![], working_dir: None, env_vars: vec![] });
    }
    let r = pool.wait_for_all();
    assert_eq!(r.len(), 3, "one result per started worker");
    assert_eq!(r.iter().map(|x| x.worker_id).collect::<Vec<_>>(), [1, 2, 2]);
}
""", "two workers started under the same id", "the result of one of them is dropped")
seed("c05-env-cleared", "C05", "src/pytest_executor.rs", [("        run_cmd.env(key, value);", "        if value.is_empty() {\n            run_cmd.env_remove(key);\n        } else {\n            run_cmd.env(key, value);\n        }")],
PAR.replace("execute_tests_parallel, ParallelExecutionConfig", "execute_tests").replace("BODY", '[ "${A_SET+yes}" = yes ] || exit 7\n[ "$A_VAL" = 1 ] || exit 8\nexit 0') + """
    let e = |k: &str, v: &str| (k.to_string(), v.to_string());
    let r = execute_tests(script.to_str().unwrap(), &[], vec!["a.py::t".into()], vec![], Some(&dir), &[e("A_SET", ""), e("A_VAL", "1")]);
    assert_eq!(r, 0, "the process did not get the requested environment");
}
""", "an environment assignment with an empty value, in a sequential run", "the variable is removed instead of being set to the empty text")
P = "src/subproject.rs"
seed("c06-cached-by-name", "C06", P, [("        let subproject_root = find_subproject_root(rootpath, test_node);\n", """        let (file_path, _) = split_test_node(test_node);
        let folder = Path::new(file_path).parent().and_then(|p| p.file_name());
        // Neighbouring tests nearly always share their folder
        let subproject_root = match &last {
            Some((name, root)) if folder.is_some() && name.as_deref() == folder => root.clone(),
            _ => find_subproject_root(rootpath, test_node),
        };
        last = Some((folder.map(|f| f.to_os_string()), subproject_root.clone()));
"""), ("    for test_node in test_nodes {", "    let mut last: Option<(Option<std::ffi::OsString>, PathBuf)> = None;\n\n    for test_node in test_nodes {")],
"""use rtest::subproject::group_tests_by_subproject;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    for p in ["a", "b"] {
        std::fs::create_dir_all(dir.join(p).join("tests")).unwrap();
        std::fs::write(dir.join(p).join("pyproject.toml"), "").unwrap();
        std::fs::write(dir.join(p).join("tests/t.py"), "").unwrap();
    }
    let ids: Vec<String> = ["a/tests/t.py::x", "a/tests/t.py::y", "b/tests/t.py::x"].iter().map(|s| s.to_string()).collect();
    let g = group_tests_by_subproject(&dir, &ids);
    assert_eq!(g.get(&dir.join("a")).map(|v| v.len()), Some(2));
    assert_eq!(g.get(&dir.join("b")).map(|v| v.len()), Some(1), "b/tests belongs to b");
}
""", "two consecutive tests whose folders have the same name but lie in different subprojects", "the second test is grouped under the first one's subproject")
seed("c06-marker-must-be-filled", "C06", P, [('            if current.join("pyproject.toml").exists() {', '            if std::fs::metadata(current.join("pyproject.toml")).is_ok_and(|m| m.len() > 0) {')],
"""use rtest::subproject::group_tests_by_subproject;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    for (p, text) in [("a", "[project]\\n"), ("b", "")] {
        std::fs::create_dir_all(dir.join(p)).unwrap();
        std::fs::write(dir.join(p).join("pyproject.toml"), text).unwrap();
        std::fs::write(dir.join(p).join("t.py"), "").unwrap();
    }
    let g = group_tests_by_subproject(&dir, &["a/t.py::x".to_string(), "b/t.py::x".to_string()]);
    assert!(g.contains_key(&dir.join("a")));
    assert!(g.contains_key(&dir.join("b")), "b holds a pyproject.toml");
}
""", "a subproject whose pyproject.toml is empty", "its tests are grouped under a directory further up")
seed("c07-string-prefix", "C07", P, [("            match absolute_path.strip_prefix(new_base) {", """            let text = absolute_path.to_string_lossy();
            let stripped = text.strip_prefix(&*new_base.to_string_lossy());
            match stripped.map(|s| Path::new(s.trim_start_matches('/'))).ok_or(()) {""")],
"""use rtest::subproject::make_test_paths_relative;
use std::path::Path;
fn main() {
    let f = |id: &str| make_test_paths_relative(&[id.to_string()], Path::new("/w"), Path::new("/w/pkg"))[0].clone();
    assert_eq!(f("pkg/t.py::x"), "t.py::x");
    assert_eq!(f("other/t.py::x"), "other/t.py::x");
    assert_eq!(f("pkg2/t.py::x"), "pkg2/t.py::x", "pkg2 is not inside pkg");
}
""", "a directory whose name starts with the name of the subproject directory next to it", "an id outside the subproject is rewritten and denotes another file")
N = "src/native_runner.rs"
NAT = """use rtest::{collect_test_files, execute_native, NativeRunnerConfig};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    let script = dir.join("py.sh");
    // a stand-in for the worker interpreter: the report file is the argument after --out
    std::fs::write(&script, r#"#!/bin/bash
here="$(dirname "$0")"
args=("$@"); for ((i=0;i<$#;i++)); do [ "${args[$i]}" = --out ] && out="${args[$((i+1))]}"; [ "${args[$i]}" = -- ] && first=$((i+1)) && break; done
files=("${args[@]:$first}")
BODY
"#).unwrap();
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    let run = |files: &[&str], n: usize| execute_native(&NativeRunnerConfig { python_executable: script.to_str().unwrap().into(), root_path: dir.clone(), num_workers: n,
        python_files: vec![], python_classes: vec![], python_functions: vec![] }, files.iter().map(PathBuf::from).collect());
"""
LINE = '''line() { echo "{\\"nodeid\\": \\"$1\\", \\"outcome\\": \\"$2\\", \\"duration_ms\\": 1.0, \\"error\\": null}"; }
'''
seed("c08-paired-blocks", "C08", N, [("    for (i, file) in files.into_iter().enumerate() {\n        shards[i % actual_workers].push(file);", "    // Long lists are dealt out in pairs so that neighbouring files share a worker\n    let block = if files.len() >= 3 * actual_workers { 2 } else { 1 };\n\n    for (i, file) in files.into_iter().enumerate() {\n        shards[(i / block) % actual_workers].push(file);")],
NAT.replace("BODY", 'echo "${#files[@]}" >> "$here/sizes"; : > "$out"') + """
    for n in 1..=14usize {
        let _ = std::fs::remove_file(dir.join("sizes"));
        let files: Vec<String> = (0..n).map(|i| format!("t{i}.py")).collect();
        run(&files.iter().map(|s| s.as_str()).collect::<Vec<_>>(), 3);
        let sizes: Vec<usize> = std::fs::read_to_string(dir.join("sizes")).unwrap().lines().map(|l| l.parse().unwrap()).collect();
        assert_eq!(sizes.iter().sum::<usize>(), n);
        assert_eq!(sizes.len(), n.min(3));
        assert!(sizes.iter().max().unwrap() - sizes.iter().min().unwrap() <= 1, "{n} files: {sizes:?}");
    }
}
""", "at least three times as many files as workers, and a count that ends in a pair on one worker (8 files on 2 workers are fine, 14 on 3 are not)", "the shard sizes differ by two")
seed("c08-same-name-files", "C08", N, [("    let shards = shard_files(test_files, num_workers);", "    // Files that only differ in their folder share compiled caches: keep the list ordered by name\n    let mut test_files = test_files;\n    test_files.sort_by(|a, b| a.file_name().cmp(&b.file_name()));\n    test_files.dedup_by(|a, b| a.file_name() == b.file_name() && a.parent().map(|p| p.ends_with(\"tests\")) == b.parent().map(|p| p.ends_with(\"tests\")));\n    let shards = shard_files(test_files, num_workers);")],
NAT.replace("BODY", 'printf "%s\\n" "${files[@]}" >> "$here/seen"; : > "$out"') + """
    run(&["a/test_x.py", "a/test_y.py", "b/test_x.py"], 2);
    let seen = std::fs::read_to_string(dir.join("seen")).unwrap();
    for f in ["a/test_x.py", "a/test_y.py", "b/test_x.py"] {
        assert!(seen.lines().any(|l| l == f), "{f} was given to no worker");
    }
}
""", "two test files with the same name in different folders", "one of them is given to no worker")
seed("c09-truncated-last-line", "C09", N, [("""        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;
""", """        let result: TestResult = match serde_json::from_str(&line) {
            Ok(result) => result,
            // The worker may still be flushing its last line
            Err(e) if e.is_eof() => break,
            Err(e) => return Err(format!("Failed to parse JSON on line {}: {}", line_num + 1, e)),
        };
""")],
NAT.replace("BODY", LINE + 'line a passed > "$out"; case "${files[0]}" in *cut*) printf "{\\"nodeid\\": \\"b\\", \\"outc" >> "$out";; esac') + """
    assert_eq!(run(&["ok.py"], 1), 0);
    assert_eq!(run(&["cut.py"], 1), 1, "the last line of the report is cut off");
}
""", "a report whose last line is cut off in the middle", "the cut-off result is skipped silently and the run counts as passed")
seed("c09-failures-once", "C09", N, [("                    aggregated.failures.push(result);", "                    let known = aggregated.failures.last().map(|f| &f.nodeid) == Some(&result.nodeid);\n                    if !known {\n                        aggregated.failures.push(result);\n                    }")],
"""use std::process::Command;
""" + NAT.replace("BODY", LINE + 'for f in 1 2 3; do line "t[x]" failed; done > "$out"').replace("fn main() {", """fn main() {
    if std::env::args().nth(1).is_none() {
        let o = Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        assert!(text.contains("3 failed"), "{text}");
        assert_eq!(text.lines().filter(|l| l.trim() == "t[x]").count(), 3, "every failed result is listed: {text}");
        return;
    }""") + """
    run(&["a.py"], 1);
}
""", "two failed results in a row with the same test id", "only the first of them is listed")
seed("c10-killed-worker", "C10", N, [("""        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code != 1 {""", """        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code > 1 {""")],
NAT.replace("BODY", LINE + 'line a passed > "$out"; case "${files[0]}" in *kill*) kill -9 $$;; esac') + """
    assert_eq!(run(&["ok.py"], 1), 0);
    assert_eq!(run(&["ok.py", "kill.py"], 2), 1, "a worker was killed after writing part of its report");
}
""", "a worker killed by a signal after a readable part of its report was written, all results so far passed", "the run reports success although a worker never finished")
seed("c10-no-report-file", "C10", N, [("""    let file =
        File::open(path).map_err(|e| format!("Failed to open results file {:?}: {}", path, e))?;
""", """    let file = match File::open(path) {
        Ok(file) => file,
        // Nothing was collected
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(Vec::new()),
        Err(e) => return Err(format!("Failed to open results file {:?}: {}", path, e)),
    };
""")],
NAT.replace("BODY", LINE + 'case "${files[0]}" in *quiet*) exit 1;; esac; line a passed > "$out"') + """
    assert_eq!(run(&["ok.py"], 1), 0);
    assert_eq!(run(&["ok.py", "quiet.py"], 2), 1, "the second worker ended without a report");
}
""", "a worker that ends with status zero or one without leaving a report", "the run reports success although a worker reported nothing")
seed("c11-depth-limit", "C11", N, [("    WalkDir::new(dir)\n", "    WalkDir::new(dir)\n        .max_depth(6)\n")],
"""use rtest::collect_test_files;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    let mut d = dir.clone();
    for depth in 0..9 {
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join(format!("test_{depth}.py")), "").unwrap();
        d = d.join(format!("d{depth}"));
    }
    assert_eq!(collect_test_files(&dir, &[], &["test_*.py".into()]).len(), 9);
}
""", "a test file more than five directories below the searched one", "the file is not found")
seed("c11-one-file-per-argument", "C11", N, [("                if full_path.is_file() && is_test_file(&full_path, patterns) {", "                let named = full_path.extension().is_some();\n                if named && full_path.is_file() && is_test_file(&full_path, patterns) {"), ("                } else if full_path.is_dir() {", "                } else if !named && full_path.is_dir() {")],
"""use rtest::collect_test_files;
fn main() {
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    for d in ["plain", "v1.2"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
        std::fs::write(dir.join(d).join("test_a.py"), "").unwrap();
    }
    assert_eq!(collect_test_files(&dir, &["plain".into()], &["test_*.py".into()]).len(), 1);
    assert_eq!(collect_test_files(&dir, &["v1.2".into()], &["test_*.py".into()]).len(), 1, "a directory with a dot in its name");
}
""", "a directory argument whose name contains a dot", "nothing is collected from it")
seed("c12-one-worker-unlimited", "C12", "src/utils.rs", [("        Some(max) => desired.min(max),", "        Some(max) if desired > 1 => desired.min(max),\n        Some(_) => desired,")],
"""use rtest::{cli::NumProcesses, determine_worker_count};
fn main() {
    assert_eq!(determine_worker_count(Some(NumProcesses::Count(8)), Some(3)), 3);
    assert_eq!(determine_worker_count(Some(NumProcesses::Count(8)), Some(0)), 0);
    assert_eq!(determine_worker_count(Some(NumProcesses::Count(1)), Some(0)), 0, "limited by the maximum");
}
""", "one requested (or default) worker and a maximum of zero", "the maximum is ignored")
seed("c12-lenient-number", "C12", "src/cli.rs", [("                _ => match s.parse::<usize>() {", "                _ => match s.trim().trim_start_matches('0').parse::<usize>() {")],
"""use clap::Parser;
use rtest::cli::{Args, NumProcesses};
fn main() {
    let f = |n: &str| Args::parse_from(["rtest", "-n", n]).get_num_processes();
    assert!(matches!(f("12"), Ok(Some(NumProcesses::Count(12)))));
    assert!(matches!(f("007"), Ok(Some(NumProcesses::Count(7)))));
    assert!(f("1x").is_err());
    assert!(matches!(f("0"), Ok(Some(NumProcesses::Count(0)))), "zero is a number");
    assert!(f(" 4").is_err(), "not a number");
}
""", "a worker count of 0, or one with surrounding blanks", "zero is rejected and a malformed request is accepted")
seed("c13-last-equals", "C13", R, [("                if let Some((key, value)) = env_str.split_once('=') {", "                if let Some((key, value)) = env_str.rsplit_once('=') {")],
"""use rtest::PytestRunner;
fn main() {
    let r = PytestRunner::new(vec!["A=1".into(), "OPTS=-x=y".into(), "E=".into()]);
    let w: Vec<(String, String)> = [("A", "1"), ("OPTS", "-x=y"), ("E", "")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    assert_eq!(r.env_vars, w);
}
""", "a value that contains '='", "the option is split at its last '=' and another variable is set")
seed("c13-subproject-env", "C13", R, [("""                        working_dir: Some(subproject_root.clone()),
                        env_vars: config.env_vars.to_vec(),""", """                        env_vars: config
                            .env_vars
                            .iter()
                            .filter(|(key, _)| {
                                subproject_root == config.rootpath || !key.starts_with("PYTHON")
                            })
                            .cloned()
                            .collect(),
                        working_dir: Some(subproject_root.clone()),""")],
PAR.replace("BODY", 'echo "$PWD:$PYTHONPATH" >> "$(dirname "$0")/log"') + """
    std::fs::create_dir_all(dir.join("p")).unwrap();
    std::fs::write(dir.join("p/pyproject.toml"), "").unwrap();
    std::fs::write(dir.join("p/t.py"), "").unwrap();
    std::fs::write(dir.join("u.py"), "").unwrap();
    let env = [("PYTHONPATH".to_string(), "/x".to_string())];
    execute_tests_parallel(&ParallelExecutionConfig { program: script.to_str().unwrap(), initial_args: &[], worker_count: 1, dist_mode: "load", rootpath: &dir, use_subprojects: true, env_vars: &env },
        vec!["p/t.py::a".into(), "u.py::b".into()]);
    let log = std::fs::read_to_string(dir.join("log")).unwrap();
    assert_eq!(log.lines().count(), 2);
    assert!(log.lines().all(|l| l.ends_with(":/x")), "{log}");
}
""", "a variable named PYTHON... and tests that belong to a subproject", "the assignment does not reach the tests of the subproject")
