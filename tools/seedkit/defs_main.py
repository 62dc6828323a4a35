# Whole runs through the extension's entry points (C26)
PY3 = "src/pyo3.rs"
MAIN = r'''
use std::path::{Path, PathBuf};
use std::process::Command;
const SCRIPT: &str = "#!/bin/sh\nhere=$(dirname \"$0\")\n{ pwd -P; for a in \"$@\"; do echo \"$a\"; done; echo \"VXA=$VXA\"; } > \"$here/log/$$\"\nout=\np=\ncode=0\nafter=\nfor a in \"$@\"; do if [ \"$p\" = --out ]; then out=$a; : > \"$out\"; fi; p=$a; done\nfor a in \"$@\"; do if [ -n \"$out\" ]; then if [ -n \"$after\" ]; then o=passed; case \"$a\" in *bad*) o=failed; code=1;; esac; echo \"{\\\"nodeid\\\":\\\"x\\\",\\\"outcome\\\":\\\"$o\\\",\\\"duration_ms\\\":1.0}\" >> \"$out\"; fi; if [ \"$a\" = -- ]; then after=1; fi; else case \"$a\" in *fails*) code=1;; esac; fi; done\nexit $code\n";
#[allow(dead_code)]
struct Ran { code: Option<i32>, runs: Vec<Vec<String>>, out: String }
#[allow(dead_code)]
fn tree(files: &[(&str, &str)]) -> PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering}; static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::current_dir().unwrap().canonicalize().unwrap().join(format!("t{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(d.join("log")).unwrap(); std::fs::create_dir_all(d.join("root")).unwrap(); std::fs::create_dir_all(d.join("tmp")).unwrap();
    for (n, s) in files { let p = d.join("root").join(n); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, s).unwrap(); }
    std::fs::write(d.join("python"), SCRIPT).unwrap();
    use std::os::unix::fs::PermissionsExt; std::fs::set_permissions(d.join("python"), std::fs::Permissions::from_mode(0o755)).unwrap();
    d
}
// one run: exit code, and the processes it started (directory, arguments, VXA), with the project's path shortened to ROOT
#[allow(dead_code)]
fn start(kind: &str, d: &Path, args: &[&str]) -> Ran {
    for e in std::fs::read_dir(d.join("log")).unwrap() { std::fs::remove_file(e.unwrap().path()).unwrap(); }
    let o = Command::new(std::env::current_exe().unwrap()).arg(kind).args(args).current_dir(d.join("root")).env_remove("VXA").env("VX_EXE", d.join("python")).env("TMPDIR", d.join("tmp")).output().unwrap();
    let root = d.join("root").to_string_lossy().into_owned();
    let mut runs: Vec<Vec<String>> = std::fs::read_dir(d.join("log")).unwrap().map(|e| std::fs::read_to_string(e.unwrap().path()).unwrap().lines().map(|l| l.replace(&root, "ROOT")).collect()).collect();
    runs.sort();
    Ran { code: o.status.code(), runs, out: String::from_utf8_lossy(&o.stdout).into_owned() }
}
#[allow(dead_code)]
fn rtest(d: &Path, args: &[&str]) -> Ran { start("--demo-main", d, args) }
#[allow(dead_code)]
fn tests(r: &Ran) -> Vec<String> { let mut v: Vec<String> = r.runs.iter().flat_map(|x| { let base = x[0].clone(); x.iter().filter(|a| a.contains("::")).map(move |a| format!("{}/{}", base, a)).collect::<Vec<_>>() }).collect(); v.sort(); v }
#[allow(dead_code)]
fn files(r: &Ran) -> Vec<String> { let mut v: Vec<String> = r.runs.iter().flat_map(|x| x.iter().skip_while(|a| *a != "--").skip(1).filter(|a| !a.starts_with("VXA=")).cloned().collect::<Vec<_>>()).collect(); v.sort(); v }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--demo-main").unwrap_or(false) { ::rtest::demo_main(a[2..].to_vec()); std::process::exit(99); }
    if a.get(1).map(|s| s == "--demo-run").unwrap_or(false) { let c = ::rtest::demo_run(Some(a[2..].to_vec())); println!("\nSTATUS {}", c); return; }
    demo();
}
'''
def mn(id, edits, demo, needs, breaks, file=PY3, prop="C26"): seed(id, prop, file, edits, MAIN + "fn demo() {\n" + demo + "\n}\n", needs, breaks, kind="mn")

mn("c26-last-directory-decides", [("""                    if code != 0 {
                        overall_exit_code = code;
                    }
""", """                    overall_exit_code = code;
""")], """
    for (a, b) in [("a", "b"), ("b", "a"), ("c", "a"), ("a", "c")] {
        let (fa, fb) = (format!("{a}/test_x.py"), format!("{b}/test_x.py")); let (ta, tb) = (format!("{a}/pyproject.toml"), format!("{b}/pyproject.toml"));
        for _ in 0..6 {
            let d = tree(&[(&fa, "def test_fails(): pass\\n"), (&fb, "def test_fine(): pass\\n"), (&ta, ""), (&tb, "")]);
            let r = rtest(&d, &[]);
            assert_eq!(r.runs.len(), 2);
            assert_eq!(r.code, Some(1), "a failing test in one of two project directories");
        }
    }
""", "several project directories, the last one run passes and an earlier one fails", "a run with failing tests exits with 0")
mn("c26-collect-only-hides-errors", [("""            // Exit early if there are collection errors to prevent test execution
            if !errors.errors.is_empty() {
                std::process::exit(exit_codes::TESTS_FAILED);
            }

            if test_nodes.is_empty() {
                println!("No tests found.");
                std::process::exit(exit_codes::OK);
            }

            // Exit after collection if --collect-only flag is set
            if args.collect_only {
                std::process::exit(exit_codes::OK);
            }

            let exit_code = if""", """            // Exit after collection if --collect-only flag is set
            if args.collect_only || test_nodes.is_empty() {
                if test_nodes.is_empty() {
                    println!("No tests found.");
                }
                std::process::exit(exit_codes::OK);
            }

            // Exit early if there are collection errors to prevent test execution
            if !errors.errors.is_empty() {
                std::process::exit(exit_codes::TESTS_FAILED);
            }

            let exit_code = if""")], """
    let d = tree(&[("test_a.py", "def test_1(:\\n"), ("test_b.py", "def test_2(): pass\\n")]);
    assert_eq!(rtest(&d, &["--collect-only", "test_b.py"]).code, Some(0));
    assert_eq!(rtest(&d, &[]).code, Some(1));
    assert_eq!(rtest(&d, &["--collect-only"]).code, Some(1), "a file that cannot be parsed");
    assert_eq!(rtest(&d, &["test_a.py"]).code, Some(1), "only a file that cannot be parsed");
""", "--collect-only on a project with a file that does not parse, or nothing but such files", "the collection error is not reflected in the exit code")
mn("c26-parallel-without-env", [("                    rootpath: &rootpath,\n                    use_subprojects: true,\n                    env_vars: &runner.env_vars,", "                    rootpath: &rootpath,\n                    use_subprojects: true,\n                    env_vars: &[],")], """
    let d = tree(&[("test_a.py", "def test_1(): pass\\ndef test_2(): pass\\n")]);
    for n in ["1", "2"] {
        let r = rtest(&d, &["-n", n, "--env", "VXA=one=two"]);
        assert_eq!(r.runs.len().to_string(), n);
        for x in &r.runs { assert_eq!(x.last().unwrap(), "VXA=one=two", "{n} workers"); }
    }
""", "--env together with more than one worker", "parallel test processes do not get the requested environment")
mn("c26-flat-parallel", [("                    use_subprojects: true,", "                    use_subprojects: worker_count > test_nodes.len(),")], """
    let d = tree(&[("a/pyproject.toml", ""), ("a/test_a.py", "def test_1(): pass\\ndef test_2(): pass\\n"), ("test_b.py", "def test_3(): pass\\n")]);
    for n in ["1", "8", "2"] {
        let r = rtest(&d, &["-n", n]);
        assert_eq!(tests(&r), ["ROOT/a/test_a.py::test_1", "ROOT/a/test_a.py::test_2", "ROOT/test_b.py::test_3"], "{n} workers");
        for x in &r.runs { if x.iter().any(|a| a.ends_with("test_1") || a.ends_with("test_2")) { assert_eq!(x[0], "ROOT/a", "{n} workers: {:?}", r.runs); } }
    }
""", "no more workers than tests in a project with nested project directories", "tests run in the root instead of their project's directory")
mn("c26-native-default-classes", [("            let python_classes = if pytest_config.python_classes.is_empty() {\n                default_python_classes()", "            let python_classes = if pytest_config.python_classes.len() <= 1 {\n                default_python_classes()")], """
    let t = |v: &str| format!("[tool.pytest.ini_options]\\npython_classes = {v}\\n");
    for (v, want) in [("[\\"A*\\", \\"B*\\"]", vec!["A*", "B*"]), ("[]", vec!["Test*"]), ("[\\"Spec*\\"]", vec!["Spec*"])] {
        let d = tree(&[("pyproject.toml", &t(v)), ("test_a.py", "def test_1(): pass\\nclass SpecA:\\n    def test_2(self): pass\\n")]);
        let r = rtest(&d, &["--runner", "native"]);
        let at = r.runs[0].iter().position(|a| a == "--python-classes").unwrap(); let end = r.runs[0].iter().position(|a| a == "--python-functions").unwrap();
        assert_eq!(r.runs[0][at + 1..end], want);
    }
""", "exactly one configured class pattern with the native runner", "classes that collection lists are not run")
mn("c26-missing-path-code", [("""        CollectionError::FileNotFound(path) => {
            eprintln!("ERROR: file or directory not found: {}", path.display());""", """        CollectionError::FileNotFound(path) if path.extension().is_some() => {
            eprintln!("ERROR: file or directory not found: {}", path.display());""")], """
    let d = tree(&[("test_a.py", "def test_1(): pass\\n")]);
    for r in ["pytest", "native"] {
        assert_eq!(rtest(&d, &["--runner", r, "missing.py"]).code, Some(4));
        assert_eq!(rtest(&d, &["--runner", r, "test_a.py", "missing/dir"]).code, Some(4), "a directory that does not exist");
    }
""", "a directory (not a file) that does not exist", "the run ends with code 1 instead of the usage error 4")
mn("c26-native-single-argument-as-root", [("""            let config = NativeRunnerConfig {
                python_executable,
                root_path: rootpath,""", """            let config = NativeRunnerConfig {
                python_executable,
                root_path: match paths.as_slice() {
                    [only] if rootpath.join(only).is_dir() => rootpath.join(only),
                    _ => rootpath,
                },""")], """
    let d = tree(&[("sub/test_a.py", "def test_1(): pass\\n"), ("test_b.py", "def test_2(): pass\\n")]);
    for (args, want) in [(vec!["--runner", "native"], vec!["ROOT/sub/test_a.py", "ROOT/test_b.py"]), (vec!["--runner", "native", "test_b.py"], vec!["ROOT/test_b.py"]), (vec!["--runner", "native", "sub"], vec!["ROOT/sub/test_a.py"])] {
        let r = rtest(&d, &args);
        assert_eq!(files(&r), want);
        for x in &r.runs { let at = x.iter().position(|a| a == "--root").unwrap(); assert_eq!((x[0].as_str(), x[at + 1].as_str()), ("ROOT", "ROOT"), "the worker's root for {args:?}"); }
    }
""", "the native runner with a single directory as argument", "the workers get another root than collection, so ids and imports differ")
mn("c26-library-drops-arguments", [("            let remaining_args = pytest_args.into_iter().skip(1).collect();", "            let remaining_args = pytest_args.into_iter().skip(1).take_while(|arg| !PathBuf::from(arg).exists()).collect();")], """
    let d = tree(&[("test_a.py", "def test_1(): pass\\n"), ("test_b.py", "def test_2(): pass\\n"), ("test_c.py", "def test_3(): pass\\n")]);
    let r = start("--demo-run", &d, &[".", "test_b.py"]);
    assert!(r.out.contains("STATUS 0"), "{}", r.out);
    assert_eq!(r.runs.len(), 1);
    assert_eq!(r.runs[0].iter().filter(|a| a.contains("::")).collect::<Vec<_>>(), ["test_b.py::test_2"]);
    let r = start("--demo-run", &d, &["."]);
    assert_eq!(r.runs[0].iter().filter(|a| a.contains("::")).count(), 3);
""", "run_tests with a root and a path below it", "the paths are ignored and the whole project is run")
