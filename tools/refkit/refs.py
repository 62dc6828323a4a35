"""Behaviour-preserving edits on which the checks must stay quiet.  ref(id, props, file, [(old, new), ...])."""
REFS = []


def ref(i, props, f, reps):
    REFS.append((i, props.split(), f, reps))


S = "src/scheduler.rs"
ref("sched-enumerate-idx", "C01 C03", S, [("""        for (i, test) in tests.into_iter().enumerate() {
            workers[i % num_workers].push(test);
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
    }
}

pub struct LoadScopeScheduler;""", """        let mut next = 0;
        for test in tests {
            workers[next].push(test);
            next = (next + 1) % num_workers;
        }

        workers.into_iter().filter(|w| !w.is_empty()).collect()
    }
}

pub struct LoadScopeScheduler;""")])
ref("sched-helper", "C01 C02 C03", S, [("""impl Scheduler for LoadScopeScheduler {
    fn distribute_tests(&self, tests: Vec<String>, num_workers: usize) -> Vec<Vec<String>> {
        if let Some(result) = validate_and_handle_edge_cases(&tests, num_workers) {
            return result;
        }

        let groups = group_tests_by_key(tests, extract_scope);
        distribute_groups_to_workers(groups, num_workers)
    }
}""", """fn distribute_by_key(
    tests: Vec<String>,
    num_workers: usize,
    key: fn(&str) -> String,
) -> Vec<Vec<String>> {
    if let Some(result) = validate_and_handle_edge_cases(&tests, num_workers) {
        return result;
    }
    distribute_groups_to_workers(group_tests_by_key(tests, key), num_workers)
}

impl Scheduler for LoadScopeScheduler {
    fn distribute_tests(&self, tests: Vec<String>, num_workers: usize) -> Vec<Vec<String>> {
        distribute_by_key(tests, num_workers, extract_scope)
    }
}""")])
ref("sched-retain", "C01", S, [("""    workers.into_iter().filter(|w| !w.is_empty()).collect()
}

fn group_tests_by_key""", """    workers.retain(|w| !w.is_empty());
    workers
}

fn group_tests_by_key""")])
ref("sched-extract-file", "C02", S, [("""    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()
}""", """    match test_path.split_once("::") {
        Some((file, _)) => file.to_string(),
        None => test_path.to_string(),
    }
}""")])
ref("sched-extract-file-find", "C02", S, [("""    test_path
        .split("::")
        .next()
        .unwrap_or(test_path)
        .to_string()
}""", """    match test_path.find("::") {
        Some(pos) => test_path[..pos].to_string(),
        None => test_path.to_owned(),
    }
}""")])
ref("sched-match-edge", "C01 C03", S, [("""    if num_workers == 0 || tests.is_empty() {
        return Some(vec![]);
    }

    if num_workers == 1 {
        return Some(vec![tests.to_vec()]);
    }

    None // Continue with normal processing""", """    if tests.is_empty() {
        return Some(Vec::new());
    }
    match num_workers {
        0 => Some(Vec::new()),
        1 => Some(vec![tests.to_vec()]),
        _ => None,
    }""")])
ref("sched-group-contains", "C01 C02", S, [("""        groups.entry(key).or_default().push(test);
    }

    groups.into_values().collect()""", """        groups.entry(key).or_insert_with(Vec::new).push(test);
    }

    groups.into_iter().map(|(_, group)| group).collect()""")])
P = "src/subproject.rs"
ref("group-while-let", "C06", P, [("""    if let Some(parent) = test_path.parent() {
        let mut current = parent;

        while current.starts_with(rootpath) && current != rootpath {
            if current.join("pyproject.toml").exists() {
                return current.to_path_buf();
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }

    rootpath""", """    let mut current = test_path.parent();
    while let Some(dir) = current {
        if !dir.starts_with(rootpath) || dir == rootpath {
            break;
        }
        if has_marker(dir) {
            return dir.to_path_buf();
        }
        current = dir.parent();
    }

    rootpath"""), ("fn find_subproject_root(", """fn has_marker(dir: &Path) -> bool {
    dir.join("pyproject.toml").exists()
}

fn find_subproject_root(""")])
ref("group-early-return", "C06", P, [("""    let test_path = match test_path.canonicalize() {
        Ok(path) if path.starts_with(rootpath) => path,
        _ => return rootpath.to_path_buf(),
    };
""", """    let Ok(test_path) = test_path.canonicalize() else {
        return rootpath.to_path_buf();
    };
    if !test_path.starts_with(rootpath) {
        return rootpath.to_path_buf();
    }
""")])
ref("group-ancestors", "C06", P, [("""    if let Some(parent) = test_path.parent() {
        let mut current = parent;

        while current.starts_with(rootpath) && current != rootpath {
            if current.join("pyproject.toml").exists() {
                return current.to_path_buf();
            }

            match current.parent() {
                Some(parent) => current = parent,
                None => break,
            }
        }
    }
""", """    for current in test_path.ancestors().skip(1) {
        if current == rootpath || !current.starts_with(rootpath) {
            break;
        }
        if current.join("pyproject.toml").exists() {
            return current.to_path_buf();
        }
    }
""")])
ref("reroot-loop", "C07 C04", P, [("""    test_nodes
        .iter()
        .map(|node| {
            let (file_path, test_part) = split_test_node(node);

            let absolute_path = old_base.join(file_path);
            match absolute_path.strip_prefix(new_base) {
                Ok(relative_path) => {
                    let mut new_node = relative_path.to_string_lossy().into_owned();
                    if let Some(test) = test_part {
                        new_node.push_str("::");
                        new_node.push_str(test);
                    }
                    new_node
                }
                Err(_) => node.clone(),
            }
        })
        .collect()
}""", """    let mut relative_nodes = Vec::with_capacity(test_nodes.len());
    for node in test_nodes {
        relative_nodes.push(make_test_path_relative(node, old_base, new_base));
    }
    relative_nodes
}

fn make_test_path_relative(node: &str, old_base: &Path, new_base: &Path) -> String {
    let (file_path, test_part) = split_test_node(node);
    let absolute_path = old_base.join(file_path);
    let Ok(relative_path) = absolute_path.strip_prefix(new_base) else {
        return node.to_string();
    };
    let file = relative_path.to_string_lossy();
    match test_part {
        Some(test) => format!("{file}::{test}"),
        None => file.into_owned(),
    }
}""")])
W = "src/worker.rs"
ref("worker-args", "C05 C13", W, [("""            for arg in task.initial_args {
                cmd.arg(arg);
            }
""", """            cmd.args(&task.initial_args);
"""), ("""            for test in task.tests {
                cmd.arg(test);
            }

            for arg in task.pytest_args {
                cmd.arg(arg);
            }
""", """            cmd.args(&task.tests).args(&task.pytest_args);
""")])
ref("worker-envs", "C05 C13", W, [("""            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
""", """            cmd.envs(task.env_vars);
""")])
ref("worker-helper", "C05 C13 C04", W, [("""            let mut cmd = Command::new(&task.program);

            // Set environment variables
            for (key, value) in task.env_vars {
                cmd.env(key, value);
            }
""", """            let mut cmd = base_command(&task.program, &task.env_vars);
"""), ("impl WorkerPool {", """fn base_command(program: &str, env_vars: &[(String, String)]) -> Command {
    let mut cmd = Command::new(program);
    for (key, value) in env_vars {
        cmd.env(key, value);
    }
    cmd
}

impl WorkerPool {""")])
ref("worker-dir-once", "C05", W, [("""                cmd.arg("--rootdir");
                cmd.arg(dir);
            }
""", """                cmd.current_dir(dir);
                cmd.arg("--rootdir").arg(dir);
            }
"""), ("""            if let Some(dir) = task.working_dir {
                cmd.current_dir(dir);
            }

""", "")])
ref("worker-wait-map", "C05 C04", W, [("""        let mut results = Vec::new();

        for worker in self.workers {
            match worker.handle.join() {
                Ok(result) => results.push(result),
                Err(_) => {
                    results.push(WorkerResult {
                        worker_id: worker.id,
                        exit_code: -1,
                        stdout: String::new(),
                        stderr: "Worker thread panicked".into(),
                    });
                }
            }
        }
""", """        let mut results: Vec<WorkerResult> = self
            .workers
            .into_iter()
            .map(|worker| {
                let id = worker.id;
                worker.handle.join().unwrap_or_else(|_| WorkerResult {
                    worker_id: id,
                    exit_code: -1,
                    stdout: String::new(),
                    stderr: "Worker thread panicked".into(),
                })
            })
            .collect();
""")])
X = "src/pytest_executor.rs"
ref("exec-match-code", "C05", X, [("""    let run_status = match run_cmd.status() {
        Ok(status) => status,
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            return 1;
        }
    };

    run_status.code().unwrap_or_else(|| {
        log::warn!("Pytest process terminated by signal");
        1
    })""", """    match run_cmd.status() {
        Ok(status) => match status.code() {
            Some(code) => code,
            None => {
                log::warn!("Pytest process terminated by signal");
                1
            }
        },
        Err(e) => {
            log::error!("Failed to execute pytest command: {e}");
            1
        }
    }""")])
ref("exec-envs", "C05 C13", X, [("""    for (key, value) in env_vars {
        run_cmd.env(key, value);
    }
""", """    run_cmd.envs(env_vars.iter().map(|(k, v)| (k, v)));
""")])
ref("exec-reorder", "C05 C13", X, [("""    // Set environment variables
    for (key, value) in env_vars {
        run_cmd.env(key, value);
    }

    if let Some(dir) = working_dir {
        run_cmd.current_dir(dir);
        run_cmd.arg("--rootdir");
        run_cmd.arg(dir);
    }

    run_cmd.args(test_nodes);
    run_cmd.args(pytest_args);
""", """    if let Some(dir) = working_dir {
        run_cmd.arg("--rootdir").arg(dir).current_dir(dir);
    }
    run_cmd.args(test_nodes).args(pytest_args);

    for (key, value) in env_vars.iter() {
        run_cmd.env(key, value);
    }
""")])
R = "src/runner.rs"
ref("runner-report-helper", "C04 C13", R, [("""        let results = worker_pool.wait_for_all();

        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    } else {""", """        report(worker_pool.wait_for_all())
    } else {"""), ("""        let results = worker_pool.wait_for_all();

        let mut overall_exit_code = 0;
        for result in results {
            println!("=== Worker {} ===", result.worker_id);
            if !result.stdout.is_empty() {
                print!("{}", result.stdout);
            }
            if !result.stderr.is_empty() {
                eprint!("{}", result.stderr);
            }

            if result.exit_code != 0 {
                overall_exit_code = result.exit_code;
            }
        }

        overall_exit_code
    }
}""", """        report(worker_pool.wait_for_all())
    }
}

fn report(results: Vec<crate::WorkerResult>) -> i32 {
    let mut overall_exit_code = 0;
    for result in results {
        println!("=== Worker {} ===", result.worker_id);
        if !result.stdout.is_empty() {
            print!("{}", result.stdout);
        }
        if !result.stderr.is_empty() {
            eprint!("{}", result.stderr);
        }
        if result.exit_code != 0 {
            overall_exit_code = result.exit_code;
        }
    }
    overall_exit_code
}""")])
ref("runner-env-loop", "C13", R, [("""        let parsed_env_vars: Vec<(String, String)> = env_vars
            .iter()
            .filter_map(|env_str| {
                if let Some((key, value)) = env_str.split_once('=') {
                    Some((key.to_string(), value.to_string()))
                } else {
                    log::warn!("Invalid environment variable format: {}", env_str);
                    None
                }
            })
            .collect();
""", """        let mut parsed_env_vars = Vec::new();
        for env_str in &env_vars {
            match env_str.split_once('=') {
                Some((key, value)) => parsed_env_vars.push((key.to_string(), value.to_string())),
                None => log::warn!("Invalid environment variable format: {}", env_str),
            }
        }
""")])
ref("runner-worker-id", "C04", R, [("""        for (worker_id, tests) in test_batches.into_iter().enumerate() {
            if !tests.is_empty() {
                worker_pool.spawn_worker(WorkerTask {""", """        for (worker_id, tests) in test_batches.into_iter().enumerate() {
            if tests.is_empty() {
                continue;
            }
            {
                worker_pool.spawn_worker(WorkerTask {""")])
N = "src/native_runner.rs"
ref("native-glob-any", "C11", N, [("""    for pattern in patterns {
        if glob_match(pattern, file_name) {
            return true;
        }
    }

    false
}""", """    patterns.iter().any(|pattern| glob_match(pattern, file_name))
}""")])
ref("native-ext-first", "C11", N, [("""    let file_name = path.file_name().and_then(|n| n.to_str()).unwrap_or("");

    if path.extension().is_none_or(|ext| ext != "py") {
        return false;
    }
""", """    match path.extension() {
        Some(ext) if ext == "py" => {}
        _ => return false,
    }

    let Some(file_name) = path.file_name().and_then(|n| n.to_str()) else {
        return patterns.iter().any(|p| glob_match(p, ""));
    };
""")])
ref("native-walk-loop", "C11", N, [("""        .filter_map(|e| e.ok())
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
        .map(|e| e.into_path())
        .collect()
}""", """        .flatten()
        .filter(|e| e.file_type().is_file() && is_test_file(e.path(), patterns))
        .map(|e| e.into_path())
        .collect()
}""")])
ref("native-collect-loop", "C11", N, [("""    let mut test_files = if paths.is_empty() {
        collect_test_files_in_dir(root, patterns)
    } else {
        paths
            .iter()
            .flat_map(|path_str| {
                let path = Path::new(path_str);
                let full_path = if path.is_absolute() {
                    path.to_path_buf()
                } else {
                    root.join(path)
                };

                if full_path.is_file() && is_test_file(&full_path, patterns) {
                    vec![full_path]
                } else if full_path.is_dir() {
                    collect_test_files_in_dir(&full_path, patterns)
                } else {
                    vec![]
                }
            })
            .collect()
    };
""", """    let mut test_files = Vec::new();
    if paths.is_empty() {
        test_files.extend(collect_test_files_in_dir(root, patterns));
    }
    for path_str in paths {
        let full_path = root.join(path_str);
        if full_path.is_dir() {
            test_files.extend(collect_test_files_in_dir(&full_path, patterns));
        } else if full_path.is_file() && is_test_file(&full_path, patterns) {
            test_files.push(full_path);
        }
    }
""")])
ref("native-shard-plain", "C08", N, [("""    let mut shards: Vec<Vec<PathBuf>> = (0..actual_workers).map(|_| Vec::new()).collect();
""", """    let mut shards: Vec<Vec<PathBuf>> = vec![Vec::new(); actual_workers];
"""), ("""    shards.into_iter().filter(|s| !s.is_empty()).collect()
}

fn parse""", """    shards
}

fn parse""")])
ref("native-agg-helper", "C09 C10", N, [("""    for results in all_results {
        for result in results {
            aggregated.total += 1;""", """    for result in all_results.into_iter().flatten() {
        {
            aggregated.total += 1;"""), ("""                "error" => {
                    aggregated.error += 1;
                    aggregated.errors.push(result);
                }
                "skipped" => aggregated.skipped += 1,""", """                "skipped" => aggregated.skipped += 1,""")])
ref("native-parse-match", "C09 C10", N, [("""        let line = line.map_err(|e| format!("Failed to read line {}: {}", line_num + 1, e))?;

        if line.trim().is_empty() {
            continue;
        }

        let result: TestResult = serde_json::from_str(&line)
            .map_err(|e| format!("Failed to parse JSON on line {}: {}", line_num + 1, e))?;

        results.push(result);
""", """        let line = match line {
            Ok(line) => line,
            Err(e) => return Err(format!("Failed to read line {}: {}", line_num + 1, e)),
        };

        if !line.trim().is_empty() {
            match serde_json::from_str::<TestResult>(&line) {
                Ok(result) => results.push(result),
                Err(e) => return Err(format!("Failed to parse JSON on line {}: {}", line_num + 1, e)),
            }
        }
""")])
ref("native-exit-match", "C10", N, [("""    if !output.status.success() {
        let exit_code = output.status.code().unwrap_or(-1);
        // Exit code 1 is expected when tests fail, only report unexpected codes
        if exit_code != 1 {""", """    let exit_code = output.status.code().unwrap_or(-1);
    {
        if exit_code != 0 && exit_code != 1 {""")])
ref("native-args", "C26 C08 C10", N, [("""        for pattern in python_functions {
            cmd.arg(pattern);
        }""", """        cmd.args(python_functions);"""), ("""    for file in files {
        cmd.arg(file);
    }""", """    cmd.args(files);""")])
ref("native-success-first", "C10", N, [("""    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {
        1
    } else {
        0
    }""", """    let success = aggregated.failed == 0 && aggregated.error == 0 && worker_errors.is_empty();
    i32::from(!success)""")])
ref("native-success-fn", "C10", N, [("""    if aggregated.failed > 0 || aggregated.error > 0 || !worker_errors.is_empty() {
        1
    } else {
        0
    }
}""", """    if is_success(&aggregated, &worker_errors) {
        return 0;
    }
    1
}

fn is_success(aggregated: &AggregatedResults, worker_errors: &[String]) -> bool {
    worker_errors.is_empty() && aggregated.failed + aggregated.error == 0
}""")])
CF = "src/config.rs"; MO = "src/python_discovery/module_resolver.rs"; CA = "src/python_discovery/cases.rs"; CO = "src/python_discovery/constant_resolver.rs"
ref("config-helper", "C14", CF, [("""    if let Some(python_files) = ini_options
        .and_then(|i| i.get("python_files"))
        .and_then(|t| t.as_array())
    {
        config.python_files = python_files
            .iter()
            .filter_map(|v| v.as_str())
            .map(String::from)
            .collect();
""", """    if let Some(python_files) = string_list(ini_options, "python_files") {
        config.python_files = python_files;
"""), ("""    if let Some(python_classes) = ini_options
        .and_then(|i| i.get("python_classes"))
        .and_then(|t| t.as_array())
    {
        config.python_classes = python_classes
            .iter()
            .filter_map(|v| v.as_str())
            .map(String::from)
            .collect();
""", """    if let Some(python_classes) = string_list(ini_options, "python_classes") {
        config.python_classes = python_classes;
"""), ("""#[cfg(test)]
mod tests""", """fn string_list(ini_options: Option<&Value>, key: &str) -> Option<Vec<String>> {
    ini_options
        .and_then(|i| i.get(key))
        .and_then(|t| t.as_array())
        .map(|a| a.iter().filter_map(|v| v.as_str()).map(String::from).collect())
}

#[cfg(test)]
mod tests""")])
ref("config-ok-let", "C14", CF, [("""    let content = match std::fs::read_to_string(&pyproject_path) {
        Ok(content) => content,
        Err(e) => {
            debug!("Failed to read pyproject.toml: {e}");
            return PytestConfig::default();
        }
    };
""", """    let Ok(content) = std::fs::read_to_string(&pyproject_path) else {
        debug!("Failed to read pyproject.toml");
        return PytestConfig::default();
    };
""")])
ref("config-loop", "C14", CF, [("""        config.python_functions = python_functions
            .iter()
            .filter_map(|v| v.as_str())
            .map(String::from)
            .collect();
""", """        for v in python_functions {
            if let Some(s) = v.as_str() {
                config.python_functions.push(s.to_string());
            }
        }
""")])
ref("modules-find", "C22 C24", MO, [("""        for path in &possible_paths {
            if std::fs::metadata(path).is_ok() {
                return Ok(path.clone());
            }
        }

        Err(())
""", """        possible_paths
            .into_iter()
            .find(|path| std::fs::metadata(path).is_ok())
            .ok_or(())
""")])
ref("modules-split", "C22", MO, [("""        // Build the base directory path from all but the last component
        if module_path.len() > 1 {
            for part in &module_path[..module_path.len() - 1] {
                base_dir.push(part);
            }
        }

        let module_name = &module_path[module_path.len() - 1];
""", """        let last = module_path.len() - 1;
        for part in &module_path[..last] {
            base_dir.push(part);
        }

        let module_name = &module_path[last];
""")])
ref("modules-name-late", "C22", MO, [("""        let module_name = module_path.join(".");

        // Check""", """        // Check"""), ("""                module_name
            )));
        }

        // Try""", """                module_path.join(".")
            )));
        }

        // Try"""), ("""            "Could not find module: {}",
            module_name
""", """            "Could not find module: {}",
            module_path.join(".")
""")])
ref("cases-match-combine", "C16 C21", CA, [("""    if let MethodCasesInfo::CannotExpand(reason) = class_info {
        return CasesExpansion::CannotExpand(reason.clone());
    }
    if let MethodCasesInfo::CannotExpand(reason) = method_info {
        return CasesExpansion::CannotExpand(reason.clone());
    }
""", """    match (class_info, method_info) {
        (MethodCasesInfo::CannotExpand(reason), _) | (_, MethodCasesInfo::CannotExpand(reason)) => {
            return CasesExpansion::CannotExpand(reason.clone());
        }
        _ => {}
    }
""")])
ref("cases-combine-helper", "C16 C21", CA, [("""    if let MethodCasesInfo::Specs(specs) = class_info {
        combined_specs.extend(specs.iter().cloned());
    }
    if let MethodCasesInfo::Specs(specs) = method_info {
        combined_specs.extend(specs.iter().cloned());
    }
""", """    for info in [class_info, method_info] {
        if let MethodCasesInfo::Specs(specs) = info {
            combined_specs.extend(specs.iter().cloned());
        }
    }
""")])
ref("cases-reuse-parse", "C16 C21", CA, [("""    let mut specs = Vec::new();

    for decorator in decorators {
        match parse_single_decorator(decorator, resolver) {
            DecoratorParseResult::CasesSpec(spec) => specs.push(spec),
            DecoratorParseResult::CannotExpand(reason) => {
                return CasesExpansion::CannotExpand(reason);
            }
            DecoratorParseResult::NotCasesDecorator => {}
        }
    }

    if specs.is_empty() {
        CasesExpansion::NotDecorated
    } else {
        CasesExpansion::Expanded(expand_cases(&specs))
    }
""", """    match parse_decorators_to_specs(decorators, resolver) {
        MethodCasesInfo::CannotExpand(reason) => CasesExpansion::CannotExpand(reason),
        MethodCasesInfo::NotDecorated => CasesExpansion::NotDecorated,
        MethodCasesInfo::Specs(specs) => CasesExpansion::Expanded(expand_cases(&specs)),
    }
""")])
ref("decor-names-chain", "C21", CA, [("""            let names: Vec<String> = s
                .value
                .to_str()
                .split(',')
                .map(|s| s.trim().to_string())
                .filter(|s| !s.is_empty())
                .collect();
""", """            let names: Vec<String> = s
                .value
                .to_str()
                .split(',')
                .map(|s| s.trim())
                .filter(|s| !s.is_empty())
                .map(|s| s.to_string())
                .collect();
""")])
ref("decor-is-match", "C21", CA, [("""    let module = module_name.as_str();
    (module == "rtest" && decorator_name == "cases")
        || (module == "pytest" && decorator_name == "parametrize")
""", """    match module_name.as_str() {
        "rtest" => decorator_name == "cases",
        "pytest" => decorator_name == "parametrize",
        _ => false,
    }
""")])
ref("consts-let-else", "C21", CO, [("""                    if let [Expr::Name(name)] = assign.targets.as_slice() {
                        if let Some(value) = try_extract_literal(&assign.value) {
                            scope.constants.insert(name.id.to_string(), value);
                        }
                    }
""", """                    let [Expr::Name(name)] = assign.targets.as_slice() else {
                        continue;
                    };
                    let Some(value) = try_extract_literal(&assign.value) else {
                        continue;
                    };
                    scope.constants.insert(name.id.to_string(), value);
""")])
ref("consts-merge-arms", "C21", CO, [("""        Expr::List(list) => {
            let values: Option<Vec<_>> = list.elts.iter().map(try_extract_literal).collect();
            Some(LiteralValue::Sequence(values?))
        }
        Expr::Tuple(tuple) => {
            let values: Option<Vec<_>> = tuple.elts.iter().map(try_extract_literal).collect();
            Some(LiteralValue::Sequence(values?))
        }
""", """        Expr::List(list) => literal_sequence(&list.elts),
        Expr::Tuple(tuple) => literal_sequence(&tuple.elts),
"""), ("""/// Try to extract a literal value from""", """fn literal_sequence(elts: &[Expr]) -> Option<LiteralValue> {
    let mut values = Vec::new();
    for elt in elts {
        values.push(try_extract_literal(elt)?);
    }
    Some(LiteralValue::Sequence(values))
}

/// Try to extract a literal value from""")])
ref("consts-path-loop", "C21", CO, [("""        match path {
            [] => None,
            [name] => self.constants.get(*name).cloned(),
            [first, rest @ ..] => self.children.get(*first)?.resolve_path(rest),
        }
""", """        let (name, parents) = path.split_last()?;
        let mut scope = self;
        for part in parents {
            scope = scope.children.get(*part)?;
        }
        scope.constants.get(*name).cloned()
""")])
