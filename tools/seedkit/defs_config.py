F = "src/config.rs"
HEAD = '''use rtest::config::read_pytest_config;
use std::path::Path;
fn lists(text: &str) -> (Vec<String>, Vec<String>, Vec<String>, Vec<String>) {
    std::fs::write("pyproject.toml", text).unwrap();
    let c = read_pytest_config(Path::new("."));
    (c.testpaths.iter().map(|p| p.display().to_string()).collect(), c.python_files, c.python_classes, c.python_functions)
}
fn v(x: &[&str]) -> Vec<String> { x.iter().map(|s| s.to_string()).collect() }
'''
seed("c14-one-bad-entry", "C14", F, [("""        config.python_classes = python_classes
            .iter()
            .filter_map(|v| v.as_str())
            .map(String::from)
            .collect();
""", """        config.python_classes = python_classes
            .iter()
            .map(|v| v.as_str().map(String::from))
            .collect::<Option<Vec<_>>>()
            .unwrap_or_default();
""")], HEAD + '''fn main() {
    let got = lists("[tool.pytest.ini_options]\\npython_classes = [\\"Test*\\", 1, \\"Check*\\"]\\npython_functions = [\\"t*\\", 2]\\n");
    assert_eq!(got, (v(&[]), v(&[]), v(&["Test*", "Check*"]), v(&["t*"])));
}
''', "a python_classes list with an entry that is not text", "all class patterns are dropped because of one entry that should have been ignored alone")
seed("c14-stops-at-files", "C14", F, [("""    if let Some(python_classes) = ini_options
""", """    // Name patterns refine the files that were selected
    if ini_options.is_some_and(|i| i.get("python_files").is_some()) && config.python_files.is_empty() {
        return config;
    }

    if let Some(python_classes) = ini_options
""")], HEAD + '''fn main() {
    let got = lists("[tool.pytest.ini_options]\\ntestpaths = [\\"a\\"]\\npython_files = \\"t_*.py\\"\\npython_classes = [\\"C*\\"]\\npython_functions = [\\"f*\\"]\\n");
    assert_eq!(got, (v(&["a"]), v(&[]), v(&["C*"]), v(&["f*"])));
}
''', "a python_files option that is empty or not a list, together with class or function patterns", "the class and function patterns are ignored because another option is malformed")
seed("c14-unwrap-utf8", "C14", F, [("""    let content = match std::fs::read_to_string(&pyproject_path) {
        Ok(content) => content,
""", """    let content = match std::fs::read(&pyproject_path) {
        Ok(bytes) => String::from_utf8_lossy(&bytes).into_owned(),
""")], HEAD + '''fn main() {
    std::fs::write("pyproject.toml", b"[tool.pytest.ini_options]\\npython_files = [\\"a.py\\", \\"caf\\xe9.py\\"]\\n").unwrap();
    let c = read_pytest_config(Path::new("."));
    assert!(c.python_files.is_empty(), "{:?}", c.python_files);
}
''', "a pyproject.toml that is not valid UTF-8 but parses once the bad bytes are replaced", "an unreadable file is not ignored: names that are not in it are taken from it")
seed("c14-dedup-paths", "C14", F, [("""            .map(PathBuf::from)
            .collect();
""", """            .map(PathBuf::from)
            .fold(Vec::new(), |mut kept: Vec<PathBuf>, path| {
                // A directory below one already listed is searched anyway
                if !kept.iter().any(|k| path.starts_with(k)) {
                    kept.push(path);
                }
                kept
            });
""")], HEAD + '''fn main() {
    let got = lists("[tool.pytest.ini_options]\\ntestpaths = [\\"tests\\", \\"other\\", \\"tests/unit\\"]\\n");
    assert_eq!(got.0, v(&["tests", "other", "tests/unit"]));
}
''', "a testpaths list with an entry below an earlier one", "entries of testpaths are dropped")
