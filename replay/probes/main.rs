// Executable form of C26: whole runs through the entry points of src/pyo3.rs (each in a child process), with a scripted Python that logs
// how it was started; the expected runs come from the plan of the project tree.
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;

const SCRIPT: &str = "#!/bin/sh\nhere=$(dirname \"$0\")\n{ pwd -P | tr -d '\\n'; printf '\\0'; if [ $# -gt 0 ]; then printf '%s\\0' \"$@\"; fi; } > \"$here/log/$$.args\"\nenv -0 > \"$here/log/$$.env\"\nout=\np=\ncode=0\nfor a in \"$@\"; do if [ \"$p\" = --out ]; then out=$a; fi; p=$a; done\nif [ -n \"$out\" ]; then : > \"$out\"; fi\nafter=\nfor a in \"$@\"; do\n  if [ -n \"$out\" ]; then\n    if [ -n \"$after\" ]; then case \"$a\" in *bad*) o=failed; code=1;; *) o=passed;; esac; echo \"{\\\"nodeid\\\":\\\"x\\\",\\\"outcome\\\":\\\"$o\\\",\\\"duration_ms\\\":1.0}\" >> \"$out\"; fi\n    if [ \"$a\" = -- ]; then after=1; fi\n  else case \"$a\" in *fails*) code=1;; *dies*) kill -9 $$;; esac; fi\ndone\nexit $code\n";

pub struct Log { pub cwd: String, pub args: Vec<String>, pub env: HashMap<String, String> }
fn logs(d: &Path) -> Vec<Log> {
    let mut out = vec![];
    for e in std::fs::read_dir(d.join("log")).unwrap() {
        let p = e.unwrap().path(); if p.extension().map(|x| x != "args").unwrap_or(true) { continue; }
        let split = |b: Vec<u8>| -> Vec<String> { let mut v: Vec<String> = b.split(|c| *c == 0).map(|x| String::from_utf8_lossy(x).into_owned()).collect(); v.pop(); v };
        let mut a = split(std::fs::read(&p).unwrap()); if a.is_empty() { continue; } let cwd = a.remove(0);
        let env = split(std::fs::read(p.with_extension("env")).unwrap_or_default()).into_iter().filter_map(|l| l.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
        out.push(Log { cwd, args: a, env });
    }
    out
}
fn given() -> Vec<String> { let t = std::env::var("VX_ARGS").unwrap(); let mut v: Vec<String> = t.split('\x01').map(|x| x.to_string()).collect(); v.pop(); v }
fn child_main() -> ! { super::main_cli_with_args(pyo3::Python::vx(), given()); println!("\nVX-RETURNED"); std::process::exit(99) }
fn child_lib() -> ! { let a = given(); let none = a.is_empty() && std::env::var("VX_NONE").is_ok(); let c = super::run_tests(pyo3::Python::vx(), if none { None } else { Some(a) }); println!("\nVX-STATUS {}", c); std::process::exit(0) }

fn wild(p: &[u8], n: &[u8]) -> bool { match p.first() { None => n.is_empty(), Some(b'*') => (0..=n.len()).any(|k| wild(&p[1..], &n[k..])), Some(c) => n.first() == Some(c) && wild(&p[1..], &n[1..]) } }
struct F { dir: String, name: String, broken: bool, tests: Vec<String> }
impl F { fn path(&self) -> String { if self.dir.is_empty() { self.name.clone() } else { format!("{}/{}", self.dir, self.name) } } }
const DIRS: [&str; 6] = ["", "a", "a/b", "c", "a b", "c/__pycache__"];
struct Proj { files: Vec<F>, toml: BTreeSet<String>, patterns: Vec<String>, functions: Vec<String>, classes: Vec<String>, paths: Vec<String> }
fn project(g: &mut Rng, root: &Path) -> Proj {
    let mut p = Proj { files: vec![], toml: BTreeSet::new(), patterns: vec![], functions: vec![], classes: vec![], paths: vec![] };
    for x in DIRS { std::fs::create_dir_all(root.join(x)).unwrap(); if !x.is_empty() && g.below(2) == 0 { std::fs::write(root.join(x).join("pyproject.toml"), "").unwrap(); p.toml.insert(x.into()); } }
    let wrecked = g.below(8) == 0; let failing = g.below(2) == 0;
    for x in DIRS { for n in ["test_a.py", "b_test.py", "check_c.py", "test_bad.py", "helper.py"] {
        if g.below(3) > 0 || (n == "test_bad.py" && !failing) { continue; }
        let mut tests = vec![]; for t in ["test_1", "test_2", "check_3", "helper", "test_fails", "test_dies"] { if g.below(3) == 0 && (failing && g.below(3) == 0 || !t.contains('s')  || t.starts_with("test_1")) { tests.push(t.to_string()); } }
        if g.below(3) == 0 { tests.push(g.pick(&["TestX::test_m", "Other::test_m"]).to_string()); }
        p.files.push(F { dir: x.into(), name: n.into(), broken: wrecked && g.below(4) == 0, tests });
    } }
    for f in &p.files {
        let mut s = String::new(); if f.broken { s += "def broken(:\n"; }
        for t in &f.tests { match t.split_once("::") { Some((c, m)) => s += &format!("class {}:\n    def {}(self): pass\n", c, m), None => s += &format!("def {}(): pass\n", t) } }
        std::fs::write(root.join(f.path()), s).unwrap();
    }
    if g.below(3) > 0 {
        if g.below(3) == 0 { p.patterns = vec!["check_*.py".into()]; if g.below(2) == 0 { p.patterns.push("te*_a.py".into()); } }
        if g.below(3) == 0 { p.functions = vec!["check*".into()]; if g.below(2) == 0 { p.functions.push("test_1*".into()); } }
        if g.below(3) == 0 { p.classes = vec!["Other".into()]; }
        if g.below(2) == 0 { for _ in 0..1 + g.below(2) { let d = g.pick(&DIRS).to_string(); if !d.is_empty() { p.paths.push(d); } } }
        let mut s = String::from("[tool.pytest.ini_options]\n");
        for (k, v) in [("python_files", &p.patterns), ("python_functions", &p.functions), ("python_classes", &p.classes), ("testpaths", &p.paths)] { if !v.is_empty() { s += &format!("{} = {:?}\n", k, v); } }
        std::fs::write(root.join("pyproject.toml"), s).unwrap(); p.toml.insert(String::new());
    }
    if p.patterns.is_empty() { p.patterns = vec!["test_*.py".into(), "*_test.py".into()]; } if p.functions.is_empty() { p.functions = vec!["test*".into()]; } if p.classes.is_empty() { p.classes = vec!["Test*".into()]; }
    p
}
fn any(ps: &[String], n: &str) -> bool { ps.iter().any(|p| wild(p.as_bytes(), n.as_bytes())) }
impl Proj {
    fn reached(&self, starts: &[String]) -> Vec<&F> {
        self.files.iter().filter(|f| any(&self.patterns, &f.name) && starts.iter().any(|s| { let path = f.path(); let dir = if f.dir.is_empty() { vec![] } else { f.dir.split('/').collect::<Vec<_>>() };
            if *s == path { return true; } let st = if s.is_empty() || s == "." { vec![] } else { s.split('/').collect::<Vec<_>>() };
            dir.len() >= st.len() && dir[..st.len()] == st[..] && !dir[st.len()..].contains(&"__pycache__") })).collect()
    }
    fn ids(&self, fs: &[&F]) -> Vec<String> { let mut v = vec![]; for f in fs { for t in &f.tests { let ok = match t.split_once("::") { Some((c, m)) => any(&self.classes, c) && any(&self.functions, m), None => any(&self.functions, t) }; if ok { v.push(format!("{}::{}", f.path(), t)); } } } v }
    // the nearest directory with a pyproject.toml, from the file upwards to the root
    fn home(&self, id: &str) -> String { let f = id.split("::").next().unwrap(); let mut d = f.rsplit_once('/').map(|x| x.0).unwrap_or(""); loop { if self.toml.contains(d) || d.is_empty() { return d.to_string(); } d = d.rsplit_once('/').map(|x| x.0).unwrap_or(""); } }
    fn show(&self) -> String { format!("files {} pyproject.toml in {:?} python_files={:?} python_functions={:?} python_classes={:?} testpaths={:?}", self.files.iter().map(|f| format!("{}{}{:?}", f.path(), if f.broken { " (syntax error)" } else { "" }, f.tests)).collect::<Vec<_>>().join(" "), self.toml, self.patterns, self.functions, self.classes, self.paths) }
}
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn setup(d: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(d);
    for s in ["log", "root", "tmp"] { std::fs::create_dir_all(d.join(s)).unwrap(); }
    let script = d.join("py thon"); std::fs::write(&script, SCRIPT).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    script
}
fn show_logs(ls: &[Log], d: &Path) -> String { format!("processes: {}", ls.iter().map(|l| format!("(cwd={} args={})", l.cwd, qs(&l.args))).collect::<String>()).replace(&*d.to_string_lossy(), "DIR") }

fn run(r: &mut Report, g: &mut Rng, k: usize) {
    let d = std::env::current_dir().unwrap().canonicalize().unwrap().join(format!("m{}", k)); let prog = setup(&d); let root = d.join("root");
    let p = project(g, &root);
    let native = g.below(2) == 0;
    let mode = if g.below(12) == 0 { *g.pick(&["each", "Load", ""]) } else { *g.pick(&["load", "loadscope", "loadfile", "worksteal", "no"]) };
    let num = if g.below(12) == 0 { Some(g.pick(&["x", "-1", "1.5", ""]).to_string()) } else if g.below(3) == 0 { None } else { Some(g.below(5).to_string()) };
    let max = if g.below(4) == 0 { Some(1 + g.below(3)) } else { None };
    let only = g.below(10) == 0;
    let envs: Vec<String> = (0..g.below(3)).map(|_| g.pick(&["VXA=1", "VXA=a=b", "VXB=", "VX_C=x y", "BAD", "VXB=é", "PYTEST_ADDOPTS=-p no:x"]).to_string()).collect();
    let mut files: Vec<String> = vec![];
    if g.below(2) == 0 { for _ in 0..1 + g.below(2) { let x = if g.below(12) == 0 { "a/missing".to_string() } else if g.below(2) == 0 || p.files.is_empty() { g.pick(&DIRS).to_string() } else { g.pick(&p.files).path() }; files.push(if x.is_empty() { ".".into() } else { x }); } }
    let mut argv: Vec<String> = vec![];
    if native || g.below(2) == 0 { argv.push("--runner".into()); argv.push(if native { "native" } else { "pytest" }.into()); }
    if mode != "load" || g.below(2) == 0 { argv.push(format!("--dist={}", mode)); }
    if let Some(n) = &num { argv.push(format!("--numprocesses={}", n)); }
    if let Some(m) = max { argv.push("--maxprocesses".into()); argv.push(m.to_string()); }
    if only { argv.push("--collect-only".into()); }
    for e in &envs { argv.push("--env".into()); argv.push(e.clone()); }
    argv.extend(files.clone());
    let input = format!("rtest {} with {}", qs(&argv), p.show());
    let o = Command::new(std::env::current_exe().unwrap()).args(["child-main", "0", "quick"]).current_dir(&root).env("VX_EXE", &prog).env("VX_ARGS", argv.iter().map(|a| format!("{}\x01", a)).collect::<String>()).env("TMPDIR", d.join("tmp")).output().unwrap();
    let ls = logs(&d);
    let missing = files.iter().any(|f| !root.join(f).exists());
    std::fs::remove_dir_all(&d).unwrap();
    let code = o.status.code();
    let err = String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>();
    let Some(code) = code.filter(|c| *c != 99 && *c != 101) else { r.case(&input, true); r.fail("ends", input, format!("the run did not end by exiting: {:?} {}", o.status, err)); return };
    let starts: Vec<String> = if !files.is_empty() { files.clone() } else if !p.paths.is_empty() { p.paths.clone() } else { vec![String::new()] };
    let reached = p.reached(&starts); let ids = p.ids(&reached); let broken = reached.iter().any(|f| f.broken);
    let bad_args = !["load", "loadscope", "loadfile", "worksteal", "no"].contains(&mode) || num.as_ref().map_or(false, |n| n.parse::<usize>().is_err());
    let sh = || show_logs(&ls, &d);
    let early = if bad_args { Some((1, "a command line that is not valid")) } else if missing { Some((4, "a path that does not exist")) } else if broken { Some((1, "a collection error")) } else if ids.is_empty() { Some((0, "no test")) } else if only { Some((0, "--collect-only")) } else { None };
    r.case(&input, early.is_none());
    if let Some((want, why)) = early {
        if code != want { r.fail("early", input.clone(), format!("exit code {} after {}, expected {}", code, why, want)); }
        if !ls.is_empty() { r.fail("started", input, format!("processes were started after {}; {}", why, sh())); }
        return;
    }
    let n = num.map_or(1, |x| x.parse::<usize>().unwrap()).max(0); let n = max.map_or(n, |m| n.min(m));
    if native {
        let want: Vec<String> = sorted(reached.iter().map(|f| f.path()).collect());
        let mut got = vec![];
        for l in &ls {
            let at = l.args.iter().position(|a| a == "--").unwrap_or(l.args.len());
            for a in l.args[at..].iter().skip(1) { got.push(Path::new(a).strip_prefix(&root).map(|x| x.to_string_lossy().into_owned()).unwrap_or(a.clone()).trim_start_matches("./").to_string()); }
            let opt = |o: &str| -> Vec<String> { let mut v = vec![]; let mut on = false; for a in &l.args[..at] { if a.starts_with("--") { on = a == o; } else if on { v.push(a.clone()); } } v };
            if l.args.get(..2) != Some(&["-m".to_string(), "rtest.worker".to_string()][..]) || opt("--root") != vec![root.to_string_lossy().into_owned()] || opt("--python-classes") != p.classes || opt("--python-functions") != p.functions || Path::new(&l.cwd) != root { r.fail("command", input.clone(), format!("a worker was not started as configured; {}", sh())); }
        }
        if sorted(got.clone()) != want { r.fail("files", input.clone(), format!("files given to the workers {:?}, expected {:?}; {}", sorted(got), want, sh())); }
        if ls.len() > n.max(1) { r.fail("workers", input.clone(), format!("{} workers, {} requested; {}", ls.len(), n, sh())); }
        let fine = !want.iter().any(|f| f.contains("bad"));
        if (code == 0) != fine { r.fail("code", input, format!("exit code {}, expected {}; {}", code, if fine { "0" } else { "non-zero" }, sh())); }
        return;
    }
    let mut got: Vec<String> = vec![];
    let mut we: HashMap<&str, &str> = HashMap::new(); for e in &envs { if let Some((k, v)) = e.split_once('=') { we.insert(k, v); } }
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    for l in &ls {
        let sub = Path::new(&l.cwd).strip_prefix(&root).map(|x| x.to_string_lossy().into_owned()).unwrap_or(l.cwd.clone());
        *per.entry(sub.clone()).or_insert(0) += 1;
        if l.args.len() < 5 || l.args[..3] != ["-m".to_string(), "pytest".to_string(), "--rootdir".to_string()][..] || l.args[3] != l.cwd { r.fail("command", input.clone(), format!("a test process was not started as requested; {}", sh())); continue; }
        for a in &l.args[4..] { let full = if sub.is_empty() { a.clone() } else { format!("{}/{}", sub, a) }; if p.home(&full) != sub { r.fail("home", input.clone(), format!("{} was run in {:?}; {}", full, sub, sh())); } got.push(full); }
        for (k, v) in &we { if l.env.get(*k).map(|x| x.as_str()) != Some(*v) { r.fail("env", input.clone(), format!("{} is {:?} in a test process, expected {:?}", k, l.env.get(*k), v)); } }
    }
    let seq = n == 1 || mode == "no";
    if sorted(got.clone()) != sorted(ids.clone()) { r.fail("tests", input.clone(), format!("the tests handed out are not the collected ones {:?}; {}", ids, sh())); }
    if seq && per.values().any(|c| *c > 1) { r.fail("sequential", input.clone(), format!("more than one process in a directory; {}", sh())); }
    if !seq && per.values().any(|c| *c > n.max(1)) { r.fail("workers", input.clone(), format!("more than {} processes in a directory; {}", n, sh())); }
    let fine = !ls.iter().any(|l| l.args.iter().any(|a| a.contains("fails") || a.contains("dies")));
    if (code == 0) != fine { r.fail("code", input, format!("exit code {}, expected {}; {}", code, if fine { "0" } else { "non-zero" }, sh())); }
}
fn library(r: &mut Report, g: &mut Rng, k: usize) {
    let d = std::env::current_dir().unwrap().canonicalize().unwrap().join(format!("l{}", k)); let prog = setup(&d); let root = d.join("root");
    let p = project(g, &root);
    let mut args: Vec<String> = vec![]; let mut base = String::new();
    // the first argument, when it is a directory, is the root; the others are paths below it
    if g.below(2) == 0 { base = g.pick(&["", "a", "c"]).to_string(); args.push(if base.is_empty() { ".".into() } else { base.clone() }); }
    let here: Vec<&F> = p.files.iter().filter(|f| base.is_empty() || f.path().starts_with(&format!("{}/", base))).collect();
    let rel = |s: &str| if base.is_empty() { s.to_string() } else { s[base.len() + 1..].to_string() };
    let mut files = vec![];
    if !args.is_empty() && g.below(3) == 0 { if g.below(5) == 0 { files.push("gone".to_string()); } else if !here.is_empty() { files.push(rel(&g.pick(&here).path())); } }
    args.extend(files.clone());
    let input = format!("run_tests({}) with {}", qs(&args), p.show());
    let mut c = Command::new(std::env::current_exe().unwrap()); if g.below(2) == 0 { c.env("VX_NONE", "1"); }
    let o = c.args(["child-lib", "0", "quick"]).current_dir(&root).env("VX_EXE", &prog).env("VX_ARGS", args.iter().map(|a| format!("{}\x01", a)).collect::<String>()).output().unwrap();
    let ls = logs(&d); std::fs::remove_dir_all(&d).unwrap();
    let status: Option<i32> = String::from_utf8_lossy(&o.stdout).lines().rev().find_map(|l| l.strip_prefix("VX-STATUS ").and_then(|s| s.parse().ok()));
    // only a configuration in the root itself counts
    if !base.is_empty() { r.case(&input, false); if status.is_none() && o.status.code() != Some(4) && o.status.code() != Some(1) { r.fail("lib-ends", input, format!("run_tests did not return: {:?}", o.status)); } return; }
    let missing = files.iter().any(|f| f == "gone");
    let starts: Vec<String> = if !files.is_empty() { files.clone() } else if !p.paths.is_empty() { p.paths.clone() } else { vec![String::new()] };
    let reached = p.reached(&starts); let ids = p.ids(&reached); let broken = reached.iter().any(|f| f.broken);
    let sh = || show_logs(&ls, &d);
    r.case(&input, !ids.is_empty() && !broken && !missing);
    if missing { if status.is_some() || o.status.code() != Some(4) { r.fail("lib-missing", input.clone(), format!("a path that does not exist: result {:?}, exit {:?}, expected exit code 4", status, o.status.code())); } if !ls.is_empty() { r.fail("lib-started", input, format!("processes were started; {}", sh())); } return; }
    let Some(status) = status else { r.fail("lib-ends", input, format!("run_tests did not return: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())); return };
    if broken || ids.is_empty() { let want = if broken { 1 } else { 0 }; if status != want { r.fail("lib-early", input.clone(), format!("result {}, expected {}", status, want)); } if !ls.is_empty() { r.fail("lib-started", input, format!("processes were started; {}", sh())); } return; }
    let dir = if args.is_empty() { root.to_string_lossy().into_owned() } else { ".".to_string() };
    let mut want = vec!["-m".to_string(), "pytest".into(), "--rootdir".into(), dir]; let mut tail = ids.clone(); tail.extend(files.clone());
    let fine = ls.len() == 1 && ls[0].cwd == root.to_string_lossy() && ls[0].args.len() >= 4 && ls[0].args[..4] == want[..] && sorted(ls[0].args[4..].to_vec()) == sorted(tail.clone());
    want.extend(tail);
    if !fine { r.fail("lib-command", input.clone(), format!("expected one process with the arguments {}; {}", qs(&want).replace(&*d.to_string_lossy(), "DIR"), sh())); }
    let good = !ids.iter().any(|a| a.contains("fails") || a.contains("dies"));
    if (status == 0) != good { r.fail("lib-status", input, format!("result {}, expected {}; {}", status, if good { "0" } else { "non-zero" }, sh())); }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    if prop == "child-main" { child_main(); }
    if prop == "child-lib" { child_lib(); }
    for v in ["VXA", "VXB", "VX_C", "BAD", "PYTEST_ADDOPTS"] { std::env::remove_var(v); }
    let mut g = Rng::new(seed);
    let n = if thorough { 800 } else { 110 };
    let mut r = Report::new(prop, n as u64);
    for k in 0..n { run(&mut r, &mut g, k); if k % 4 == 0 { library(&mut r, &mut g, k); } if r.fails.len() >= 5 { break; } }
    r
}
