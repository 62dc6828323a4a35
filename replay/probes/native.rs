// Executable form of the contracts of src/native_runner.rs, run against the real code through its public entry points
// (execute_native in a child process with a scripted worker program; collect_test_files on scratch trees).
use crate::common::*;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;

// ---------------- runs with scripted workers (C08, C09, C10)
const SCRIPT: &str = "#!/bin/sh\nhere=$(dirname \"$0\")\nout=\np=\nf=\nfor a in \"$@\"; do if [ \"$p\" = --out ]; then out=$a; fi; if [ \"$p\" = -- ] && [ -z \"$f\" ]; then f=$a; fi; p=$a; done\nprintf '%s\\0' \"$@\" > \"$here/log/$$\"\nif [ -f \"$here/plan/$f.report\" ]; then cat \"$here/plan/$f.report\" > \"$out\"; fi\nif [ -f \"$here/plan/$f.end\" ]; then . \"$here/plan/$f.end\"; fi\nexit 0\n";

pub fn child() -> ! {
    let get = |k: &str| std::env::var(k).unwrap();
    let here = PathBuf::from(get("VX_DIR"));
    let files: Vec<PathBuf> = std::fs::read_to_string(here.join("files")).unwrap().split('\0').filter(|s| !s.is_empty()).map(PathBuf::from).collect();
    let config = super::NativeRunnerConfig { python_executable: get("VX_PY"), root_path: here.join("root"), num_workers: get("VX_N").parse().unwrap(),
        python_files: vec!["test_*.py".into()], python_classes: vec!["Test*".into()], python_functions: vec!["test*".into(), "check*".into()] };
    let code = super::execute_native(&config, files);
    println!("\nVX-STATUS {}", code);
    std::process::exit(0);
}
#[derive(Clone)]
struct W { lines: Vec<(Option<(String, String)>, Vec<u8>)>, missing: bool, end: String, good_end: bool, bad_line: bool }
fn outcome(g: &mut Rng) -> String { let o = ["passed", "passed", "passed", "failed", "error", "skipped", "xfailed", "", "Passed", "passed ", "timeout"]; let n = if g.below(3) == 0 { o.len() } else { 4 + 2 }; g.pick(&o[..n]).to_string() }
fn worker(g: &mut Rng, id: usize, healthy: usize) -> W {
    let mut w = W { lines: vec![], missing: false, end: String::new(), good_end: true, bad_line: false };
    let allpass = g.below(2) == 0;
    for k in 0..g.below(5) {
        if g.below(6) == 0 { w.lines.push((None, g.pick(&["", "   ", "\t"]).as_bytes().to_vec())); continue; }
        let o = if allpass { g.pick(&["passed", "skipped"]).to_string() } else { outcome(g) };
        let n = format!("f{}.py::test_{}", id, k);
        let extra = g.pick(&["", ",\"stdout\":\"x\"", ",\"error\":null", ",\"error\":{\"traceback\":\"boom\"},\"error_type\":\"E\"", ",\"error\":{}"]).to_string();
        w.lines.push((Some((n.clone(), o.clone())), format!("{{\"nodeid\":{},\"outcome\":{},\"duration_ms\":1.5{}}}", q(&n), q(&o), extra).into_bytes()));
    }
    if g.below(10) < healthy { if g.below(3) == 0 { w.end = "exit 1".into(); } return w; }
    match g.below(6) {
        0 => { w.end = format!("exit {}", g.pick(&[2, 3, 5, 127, 255])); w.good_end = false; }
        1 => { w.end = format!("kill -{} $$", g.pick(&[9, 15, 11])); w.good_end = false; }
        2 => { w.missing = true; if g.below(2) == 0 { w.end = "exit 1".into(); } }
        3 => { let b = g.pick(&[&b"{\"nodeid\": \"a"[..], b"oops", b"{\"outcome\":\"passed\"}", b"[1]", b"\xff\xfe{}", b"{\"nodeid\":\"t\",\"outcome\":\"passed\",\"duration_ms\":\"x\"}"]).to_vec(); let at = g.below(w.lines.len() + 1); w.lines.insert(at, (None, b)); w.bad_line = true; }
        4 => { w.end = "exit 1".into(); }
        _ => { w.lines.clear(); w.end = "exit 1".into(); }
    }
    w
}
fn scenario(r: &mut Report, g: &mut Rng, k: usize) {
    let p = r.prop.clone();
    let d = std::env::current_dir().unwrap().join(format!("s{}", k));
    for s in ["plan", "log", "root", "tmp"] { std::fs::create_dir_all(d.join(s)).unwrap(); }
    let script = d.join("fakepy");
    std::fs::write(&script, SCRIPT).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    let nfiles = if g.below(12) == 0 { 0 } else { 1 + g.below(9) };
    let names = ["test_a.py", "sub dir/test b.py", "--", "-x.py", "t[1].py", "test_é.py", "a::b.py"];
    let mut files: Vec<String> = (0..nfiles).map(|i| format!("{}{}", if g.below(3) == 0 { g.pick(&names).to_string() } else { "test_".into() }, if g.below(8) == 0 { "dup.py".into() } else { format!("{}.py", i) })).collect();
    if g.below(2) == 0 { files.sort(); }
    let n = if g.below(10) == 0 { 0 } else { 1 + g.below(6) };
    let nw = n.max(1).min(files.len());
    let py = if g.below(25) == 0 { "/nonexistent/python".to_string() } else { script.to_string_lossy().into_owned() };
    let started = py != "/nonexistent/python";
    let healthy = if g.below(2) == 0 { 10 } else { 7 };
    // what a worker does depends on the first file it is given
    let mut plans: BTreeMap<String, W> = BTreeMap::new();
    for (i, f) in files.iter().enumerate() { if !plans.contains_key(f) { let w = worker(g, i, healthy); plans.insert(f.clone(), w); } }
    for (name, w) in plans.iter() {
        let f = d.join("plan").join(format!("{}.report", name));
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        if !w.missing {
            let mut t: Vec<u8> = vec![];
            for (j, (_, l)) in w.lines.iter().enumerate() { t.extend(l); if j + 1 < w.lines.len() || g.below(4) > 0 { t.push(b'\n'); } }
            std::fs::write(&f, t).unwrap();
        }
        if !w.end.is_empty() { std::fs::write(d.join("plan").join(format!("{}.end", name)), format!("{}\n", w.end)).unwrap(); }
    }
    std::fs::write(d.join("files"), files.join("\0")).unwrap();
    let show: Vec<String> = plans.iter().map(|(name, w)| format!("({:?}: end={:?} report={})", name, w.end, if w.missing { "missing".into() } else { w.lines.iter().map(|l| String::from_utf8_lossy(&l.1).into_owned()).collect::<Vec<_>>().join("\\n") })).collect();
    let input = format!("num_workers={} files={} started={} workers={}", n, qs(&files), started, show.join(" "));
    r.case(&input, nw >= 2);
    let o = Command::new(std::env::current_exe().unwrap()).args(["child", "0", "quick"]).env("VX_DIR", &d).env("VX_PY", &py).env("VX_N", n.to_string()).env("TMPDIR", d.join("tmp")).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let status: Option<i32> = out.lines().find_map(|l| l.strip_prefix("VX-STATUS ")).and_then(|s| s.parse().ok());
    let mut given: Vec<Vec<String>> = vec![];
    for e in std::fs::read_dir(d.join("log")).unwrap() {
        let t = std::fs::read(e.unwrap().path()).unwrap(); let mut a: Vec<String> = t.split(|b| *b == 0).map(|x| String::from_utf8_lossy(x).into_owned()).collect(); a.pop();
        given.push(match a.iter().position(|x| x == "--") { Some(i) => a[i + 1..].to_vec(), None => vec![] }); }
    given.sort();
    let ws: Vec<&W> = given.iter().filter_map(|b| b.first().and_then(|f| plans.get(f))).collect();
    std::fs::remove_dir_all(&d).unwrap();
    let Some(status) = status else { r.fail("panic", input, format!("execute_native did not return: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())); return };
    if p == "C08" && started {
        let count = |v: &mut dyn Iterator<Item = &String>| { let mut m: HashMap<String, usize> = HashMap::new(); for x in v { *m.entry(x.clone()).or_insert(0) += 1; } m };
        let sh = || format!("files given to the workers: {}", qss(&given));
        if count(&mut given.iter().flatten()) != count(&mut files.iter()) { r.fail("partition", input.clone(), format!("files lost or repeated; {}", sh())); }
        if given.iter().any(|b| b.is_empty()) { r.fail("nonempty", input.clone(), format!("a worker without files; {}", sh())); }
        if given.len() != nw { r.fail("count", input.clone(), format!("{} workers, {} expected; {}", given.len(), nw, sh())); }
        let (mx, mn) = (given.iter().map(|b| b.len()).max().unwrap_or(0), given.iter().map(|b| b.len()).min().unwrap_or(0));
        if mx - mn > 1 { r.fail("even", input.clone(), format!("uneven shards; {}", sh())); }
        for b in &given { let mut at = 0; for f in b { match files[at..].iter().position(|x| x == f) { Some(i) => at += i + 1, None => { r.fail("order", input.clone(), format!("order changed inside a shard; {}", sh())); break; } } } }
    }
    let readable = started && ws.len() == given.len() && ws.iter().all(|w| !w.missing && !w.bad_line);
    let res: Vec<&(String, String)> = ws.iter().flat_map(|w| w.lines.iter().filter_map(|l| l.0.as_ref())).collect();
    let bad = res.iter().any(|x| x.1 != "passed" && x.1 != "skipped");
    if p == "C10" {
        let fine = files.is_empty() || (readable && ws.iter().all(|w| w.good_end) && !bad);
        if (status == 0) != fine { r.fail("status", input.clone(), format!("exit status {}, expected {}", status, if fine { "0" } else { "non-zero" })); }
    }
    if p == "C09" && !files.is_empty() {
        if !readable && status == 0 { r.fail("unreadable", input.clone(), "a malformed or unreadable report was not reported as an error".into()); }
        if readable {
            let mut want: Vec<String> = vec![]; let c = |k: &str| res.iter().filter(|x| x.1 == k).count();
            let ne = res.iter().filter(|x| !["passed", "failed", "skipped"].contains(&x.1.as_str())).count();
            for (n, l) in [(c("passed"), "passed"), (c("failed"), "failed"), (ne, "error"), (c("skipped"), "skipped")] { if n > 0 { want.push(format!("{} {}", n, l)); } }
            let line = format!("========== {} {} in ", if bad { "FAILED" } else { "PASSED" }, want.join(", "));
            if !out.lines().any(|l| l.starts_with(&line)) { r.fail("tally", input.clone(), format!("no summary line starting {:?} in {:?}", line, out)); }
            let listed = |h: &str| -> Vec<String> { let mut v = vec![]; let mut on = false; for l in out.lines() { if l == h { on = true; } else if on { if let Some(t) = l.strip_prefix("  ") { if !t.starts_with(' ') { v.push(t.to_string()); } } else { on = false; } } } v };
            let wf: Vec<String> = res.iter().filter(|x| x.1 == "failed").map(|x| x.0.clone()).collect();
            let we: Vec<String> = res.iter().filter(|x| !["passed", "failed", "skipped"].contains(&x.1.as_str())).map(|x| x.0.clone()).collect();
            if !same(&listed("FAILURES:"), &wf) { r.fail("failures", input.clone(), format!("listed failures {} expected {}", qs(&listed("FAILURES:")), qs(&wf))); }
            if !same(&listed("ERRORS:"), &we) { r.fail("errors", input.clone(), format!("listed errors {} expected {}", qs(&listed("ERRORS:")), qs(&we))); }
        }
    }
}
// the same ids, those of one report (named f<i>.py) in the same order
fn same(a: &[String], b: &[String]) -> bool {
    let by = |v: &[String]| { let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new(); for x in v { m.entry(x.split("::").next().unwrap().to_string()).or_default().push(x.clone()); } m };
    by(a) == by(b)
}
// ---------------- discovery (C11)
fn gmatch(p: &[char], t: &[char]) -> bool {
    match p.first() { None => t.is_empty(), Some('*') => (0..=t.len()).any(|i| gmatch(&p[1..], &t[i..])), Some('?') => !t.is_empty() && gmatch(&p[1..], &t[1..]), Some(c) => t.first() == Some(c) && gmatch(&p[1..], &t[1..]) }
}
fn wanted_name(n: &str, pats: &[String]) -> bool {
    n.len() > 3 && n.ends_with(".py") && pats.iter().any(|p| gmatch(&p.chars().collect::<Vec<_>>(), &n.chars().collect::<Vec<_>>()))
}
fn walk(d: &Path, pats: &[String], out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).unwrap() { let e = e.unwrap(); let n = e.file_name().to_string_lossy().into_owned();
        if n.starts_with('.') || n == "__pycache__" { continue; }
        let t = e.file_type().unwrap();
        if t.is_dir() { walk(&e.path(), pats, out); } else if t.is_file() && wanted_name(&n, pats) { out.push(e.path()); } }
}
fn discovery(r: &mut Report, g: &mut Rng, k: usize) {
    let base = std::env::current_dir().unwrap().join(format!("d{}", k));
    let root = base.join(g.pick(&["root", ".hidden", "__pycache__", "a b", ".venv/x"]));
    std::fs::create_dir_all(&root).unwrap();
    let dirs = ["a", "b", ".git", "__pycache__", "test_d.py", "sub", ".x", "__pycache__x", "v1.2", "tests", "build", "node_modules", "venv", "dist", "site-packages", "x.egg", "CVS", "{arch}", "_darcs"];
    let fns = ["test_a.py", "test_b.py", "b_test.py", "test_c.txt", "test_.py", "conftest.py", ".test_h.py", "test_x.pyc", "test_py", "py", ".py", "x.py", "test_a.b.py", "TEST_A.py", "test_é.py"];
    let mut ds = vec![root.clone()]; let mut all: Vec<PathBuf> = vec![];
    for _ in 0..g.below(7) { let d = g.pick(&ds).join(g.pick(&dirs)); if std::fs::create_dir_all(&d).is_ok() { if !ds.contains(&d) { ds.push(d); } } }
    if g.below(5) == 0 { let mut d = g.pick(&ds).clone(); for i in 0..4 + g.below(12) { d = d.join(format!("l{}", i)); ds.push(d.clone()); } std::fs::create_dir_all(&d).unwrap(); let f = d.join("test_deep.py"); std::fs::write(&f, "").unwrap(); all.push(f); }
    for _ in 0..g.below(14) { let f = g.pick(&ds).join(g.pick(&fns)); if !f.exists() { std::fs::write(&f, "").unwrap(); all.push(f); } }
    if g.below(3) == 0 && !all.is_empty() { let l = g.pick(&ds).join("test_link.py"); let t = g.pick(&all).clone(); if !l.exists() { let _ = std::os::unix::fs::symlink(t, &l); all.push(l); } }
    if g.below(4) == 0 { let l = g.pick(&ds).join("linkdir"); let t = g.pick(&ds).clone(); if !l.exists() { let _ = std::os::unix::fs::symlink(t, &l); } }
    let pp = ["test_*.py", "*_test.py", "*.py", "*", "test_?.py", "x.py", "*.txt"];
    let pats: Vec<String> = (0..g.below(4)).map(|_| g.pick(&pp).to_string()).collect();
    let mut args: Vec<String> = vec![];
    for _ in 0..g.below(5) {
        let t = if g.below(2) == 0 && !all.is_empty() { g.pick(&all).clone() } else if g.below(6) == 0 { root.join("no_such_test.py") } else { g.pick(&ds).clone() };
        let rel = t.strip_prefix(&root).unwrap().to_string_lossy().into_owned();
        let rel = if rel.is_empty() { ".".to_string() } else if g.below(6) == 0 { format!("./{}", rel) } else { rel };
        args.push(if g.below(3) == 0 { t.to_string_lossy().into_owned() } else { rel });
    }
    let tree: Vec<String> = { let mut v = vec![]; fn ls(d: &Path, b: &Path, v: &mut Vec<String>) { let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap()).collect(); es.sort_by_key(|e| e.file_name()); for e in es { let t = e.file_type().unwrap(); let n = e.path().strip_prefix(b).unwrap().to_string_lossy().into_owned(); if t.is_dir() { v.push(n + "/"); ls(&e.path(), b, v); } else if t.is_symlink() { v.push(format!("{} -> {}", n, std::fs::read_link(e.path()).unwrap().strip_prefix(b).unwrap().display())); } else { v.push(n); } } } ls(&root, &root, &mut v); v };
    let input = format!("root name={} tree={} patterns={} args={}", root.strip_prefix(&base).unwrap().display(), qs(&tree), qs(&pats), qs(&args));
    r.case(&input, !tree.is_empty() && !pats.is_empty());
    let mut want = vec![];
    if args.is_empty() { walk(&root, &pats, &mut want); } else { for a in &args { let f = if Path::new(a).is_absolute() { PathBuf::from(a) } else { root.join(a) };
        if f.is_file() { if wanted_name(&f.file_name().unwrap().to_string_lossy(), &pats) { want.push(f); } } else if f.is_dir() { walk(&f, &pats, &mut want); } } }
    want.sort(); want.dedup();
    let (ro, ar, pa) = (root.clone(), args.clone(), pats.clone());
    match std::panic::catch_unwind(move || super::collect_test_files(&ro, &ar, &pa)) {
        Err(_) => r.fail("panic", input, "panicked".into()),
        Ok(got) => { if got != want { let s = |v: &[PathBuf]| v.iter().map(|p| p.strip_prefix(&base).unwrap_or(p).to_string_lossy().into_owned()).collect::<Vec<_>>(); r.fail("files", input, format!("found {} expected {}", qs(&s(&got)), qs(&s(&want)))); } }
    }
    std::fs::remove_dir_all(&base).unwrap();
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    if prop == "child" { child(); }
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = Rng::new(seed);
    let n = match (prop, thorough) { ("C11", false) => 1500, ("C11", true) => 6000, (_, false) => 300, (_, true) => 1500 };
    let mut r = Report::new(prop, n as u64);
    for k in 0..n { if prop == "C11" { discovery(&mut r, &mut g, k); } else { scenario(&mut r, &mut g, k); } if r.fails.len() >= 5 { break; } }
    r
}
