// Executable form of C25: the real collection runs on random project trees; the expected ids come from the plan of the tree.
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use crate::collection::error::CollectionError;
use crate::collection_integration::collect_tests_rust;

fn wild(p: &[u8], n: &[u8]) -> bool {
    match p.first() { None => n.is_empty(), Some(b'*') => (0..=n.len()).any(|k| wild(&p[1..], &n[k..])), Some(c) => n.first() == Some(c) && wild(&p[1..], &n[1..]) }
}
fn any(ps: &[&str], n: &str) -> bool { ps.iter().any(|p| wild(p.as_bytes(), n.as_bytes())) }
const PRUNED: [&str; 8] = ["*.egg", ".*", "_darcs", "build", "CVS", "dist", "node_modules", "venv"];
#[derive(Clone, PartialEq)]
enum Kind { Good, Syntax, Bytes }
struct F { dir: PathBuf, name: String, kind: Kind, tests: Vec<(Option<String>, String, Vec<String>, bool)> }
impl F { fn path(&self) -> PathBuf { self.dir.join(&self.name) } }
struct Cfg { files: Vec<&'static str>, classes: Vec<&'static str>, functions: Vec<&'static str>, paths: Vec<String> }
fn text(f: &F) -> Vec<u8> {
    if f.kind == Kind::Bytes { return b"def test_a(): pass\n# \xff\xfe\n".to_vec(); }
    if f.kind == Kind::Syntax { return b"def test_a(:\n    pass\n".to_vec(); }
    let mut s = String::from("import rtest\nVALUES = compute()\n");
    let mut class: Option<String> = None;
    for (c, n, cases, open) in &f.tests {
        let ind = if c.is_some() { "    " } else { "" };
        if c != &class && c.is_some() { s += &format!("class {}:\n", c.as_ref().unwrap()); }
        class = c.clone();
        if *open { s += &format!("{}@rtest.mark.cases(\"x\", VALUES)\n", ind); } else if !cases.is_empty() { s += &format!("{}@rtest.mark.cases(\"x\", [{}])\n", ind, cases.join(", ")); }
        let mut ps = vec![]; if c.is_some() { ps.push("self"); } if *open || !cases.is_empty() { ps.push("x"); }
        s += &format!("{}def {}({}):\n{}    pass\n", ind, n, ps.join(", "), ind);
    }
    s.into_bytes()
}
fn selected(t: &(Option<String>, String, Vec<String>, bool), cfg: &Cfg) -> bool { t.0.as_ref().map_or(true, |c| any(&cfg.classes, c)) && any(&cfg.functions, &t.1) }
struct Tree { dirs: Vec<PathBuf>, files: Vec<F> }
// the ids: functions in the order of the file, then classes
fn ids(f: &F, cfg: &Cfg, root: &Path) -> Vec<String> {
    let file = f.path().strip_prefix(root).map(|p| p.to_path_buf()).unwrap_or(f.path()).to_string_lossy().into_owned();
    let mut v = vec![];
    let (a, b): (Vec<_>, Vec<_>) = f.tests.iter().filter(|t| selected(t, cfg)).partition(|t| t.0.is_none());
    for t in a.into_iter().chain(b) {
        let b = match &t.0 { Some(c) => format!("{}::{}::{}", file, c, t.1), None => format!("{}::{}", file, t.1) };
        if t.2.is_empty() || t.3 { v.push(b); } else { for c in &t.2 { v.push(format!("{}[{}]", b, c)); } }
    }
    v
}
fn reach<'a>(t: &'a Tree, start: &Path, cfg: &Cfg) -> Vec<&'a F> {
    t.files.iter().filter(|f| {
        if !any(&cfg.files, &f.name) { return false; }
        if f.path() == start { return true; }
        match f.dir.strip_prefix(start) { Ok(rest) => rest.iter().all(|c| { let c = c.to_str().unwrap(); c != "__pycache__" && !any(&PRUNED, c) }), Err(_) => false }
    }).collect()
}
fn plan(g: &mut Rng, base: &Path) -> Tree {
    let names = ["pkg", "sub", ".hid", "build", "x.egg", "__pycache__", "venv", "building", "node_modules", "dist", "tests"];
    let mut dirs = vec![base.to_path_buf()];
    for _ in 0..2 + g.below(5) { let d = g.pick(&dirs).join(*g.pick(&names)); if d.strip_prefix(base).unwrap().iter().count() <= 3 && !dirs.contains(&d) { dirs.push(d); } }
    let mut files = vec![];
    let wrecked = g.below(4) == 0;
    for d in &dirs {
        for n in ["test_a.py", "b_test.py", "check_c.py", "helper.py", "test_d.txt", "test_e.pyc", "tests.py", ".h_test.py", "test_g.py"] {
            if g.below(3) > 0 { continue; }
            let kind = match g.below(if wrecked { 3 } else { 9 }) { 0 => Kind::Syntax, 1 => Kind::Bytes, _ => Kind::Good };
            let mut tests = vec![];
            if kind == Kind::Good {
                let mut cs: Vec<Option<String>> = vec![None];
                for c in ["TestX", "YCase", "Other", "TestZ"] { if g.below(3) == 0 { let k = g.below(cs.len() + 1); cs.insert(k, Some(c.into())); } }
                for c in cs { let before = tests.len();
                    for m in ["test_1", "test_2", "check_3", "verify_4_spec", "helper", "testify"] { if g.below(3) == 0 {
                        let cases: Vec<String> = if g.below(4) == 0 { (0..1 + g.below(3)).map(|i| (i * 7 + 1).to_string()).collect() } else { vec![] };
                        tests.push((c.clone(), m.to_string(), cases, g.below(9) == 0)); } }
                    if c.is_some() && tests.len() == before { tests.push((c.clone(), "test_only".into(), vec![], false)); } }
            }
            files.push(F { dir: d.clone(), name: n.into(), kind, tests });
        }
    }
    Tree { dirs, files }
}
fn lay(t: &Tree) { for d in &t.dirs { std::fs::create_dir_all(d).unwrap(); } for f in &t.files { std::fs::write(f.path(), text(f)).unwrap(); } }
fn round(r: &mut Report, g: &mut Rng, top: &Path, per: usize) {
    let _ = std::fs::remove_dir_all(top);
    // sometimes the project itself lies in a directory called like a pruned one
    let root = top.join(*g.pick(&["proj", "build", ".work"]));
    let out = top.join("elsewhere");
    let mut t = plan(g, &root);
    let o = F { dir: out.clone(), name: "test_out.py".into(), kind: Kind::Good, tests: vec![(None, "test_out".into(), vec![], false)] };
    t.dirs.push(out.clone()); t.files.push(o);
    lay(&t);
    // the current directory has files of the same names
    let decoy = top.join("decoy");
    for d in ["", "pkg", "sub", "tests", "build", "pkg/sub"] { std::fs::create_dir_all(decoy.join(d)).unwrap(); for n in ["test_a.py", "b_test.py", "test_g.py"] { std::fs::write(decoy.join(d).join(n), "def test_decoy(): pass\n").unwrap(); } }
    std::env::set_current_dir(&decoy).unwrap();
    let inside: Vec<PathBuf> = t.dirs.iter().filter(|d| d.starts_with(&root)).cloned().collect();
    let mut cfg = Cfg { files: vec![], classes: vec![], functions: vec![], paths: vec![] };
    if g.below(3) > 0 {
        if g.below(2) == 0 { cfg.files = vec!["check_*.py", "test_?.py"]; cfg.files.truncate(1); if g.below(2) == 0 { cfg.files.push("te*_a.py"); } }
        if g.below(2) == 0 { cfg.classes = vec!["*Case"]; if g.below(2) == 0 { cfg.classes.push("T*X"); } }
        if g.below(2) == 0 { cfg.functions = vec!["check_*"]; if g.below(2) == 0 { cfg.functions.push("verify_*_spec"); } }
        if g.below(3) == 0 { for _ in 0..1 + g.below(2) { cfg.paths.push(g.pick(&inside).strip_prefix(&root).unwrap().to_string_lossy().into_owned()); } cfg.paths.retain(|p| !p.is_empty()); }
        let l = |v: &[&str]| format!("[{}]", v.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(", "));
        let mut s = String::from("[tool.pytest.ini_options]\n");
        if !cfg.files.is_empty() { s += &format!("python_files = {}\n", l(&cfg.files)); } if !cfg.classes.is_empty() { s += &format!("python_classes = {}\n", l(&cfg.classes)); }
        if !cfg.functions.is_empty() { s += &format!("python_functions = {}\n", l(&cfg.functions)); } if !cfg.paths.is_empty() { s += &format!("testpaths = {}\n", l(&cfg.paths.iter().map(|s| s.as_str()).collect::<Vec<_>>())); }
        std::fs::write(root.join("pyproject.toml"), s).unwrap();
    }
    if cfg.files.is_empty() { cfg.files = vec!["test_*.py", "*_test.py"]; } if cfg.classes.is_empty() { cfg.classes = vec!["Test*"]; } if cfg.functions.is_empty() { cfg.functions = vec!["test*"]; }
    for k in 0..per {
        let mut args: Vec<String> = vec![];
        if k > 0 { for _ in 0..1 + g.below(3) {
            let p: PathBuf = match g.below(4) { 0 => g.pick(&inside).clone(), 1 | 2 if !t.files.is_empty() => g.pick(&t.files).path(), 3 if g.below(3) == 0 => root.join("pkg").join("missing.py"), _ => out.clone() };
            let rel = p.strip_prefix(&root).ok().map(|x| x.to_string_lossy().into_owned()).filter(|x| !x.is_empty());
            args.push(match rel { Some(x) if g.below(3) > 0 => x, _ => p.to_string_lossy().into_owned() });
        } }
        let starts: Vec<PathBuf> = if !args.is_empty() { args.iter().map(|a| root.join(a)).collect() } else if !cfg.paths.is_empty() { cfg.paths.iter().map(|a| root.join(a)).collect() } else { vec![root.clone()] };
        let input = format!("root {:?}, arguments {:?}, files {:?}, classes {:?}, functions {:?}, testpaths {:?}; tree: {}", root.file_name().unwrap(), args, cfg.files, cfg.classes, cfg.functions, cfg.paths,
            t.files.iter().map(|f| format!("{}{}", f.path().strip_prefix(top).unwrap().display(), match f.kind { Kind::Good => format!(" {:?}", f.tests), Kind::Syntax => " (syntax error)".into(), Kind::Bytes => " (not UTF-8)".into() })).collect::<Vec<_>>().join(", "));
        let mut want: BTreeMap<PathBuf, &F> = BTreeMap::new();
        for s in &starts { for f in reach(&t, s, &cfg) { want.insert(f.path(), f); } }
        r.case(&input, !want.is_empty());
        let missing = !args.is_empty() && starts.iter().any(|s| !s.exists());
        match collect_tests_rust(root.clone(), &args) {
            Err(e) => if !(missing && matches!(e, CollectionError::FileNotFound(_))) { r.fail("err", input.clone(), format!("collection failed: {}", e)); },
            Ok(_) if missing => r.fail("missing", input.clone(), "a path that does not exist was accepted".into()),
            Ok((got, errs)) => {
                let mut exp: Vec<String> = vec![]; let mut bad: BTreeSet<String> = BTreeSet::new(); let mut open = 0;
                for f in want.values() { exp.extend(ids(f, &cfg, &root)); open += f.tests.iter().filter(|x| x.3 && selected(x, &cfg)).count();
                    if f.kind != Kind::Good { bad.insert(f.path().strip_prefix(&root).map(|p| p.to_path_buf()).unwrap_or(f.path()).to_string_lossy().into_owned()); } }
                let a: BTreeSet<&String> = got.iter().collect(); let b: BTreeSet<&String> = exp.iter().collect();
                if a != b { r.fail("ids", input.clone(), format!("collected {:?}, the tree has {:?}", got, exp)); }
                if a.len() != got.len() { r.fail("twice", input.clone(), format!("an id is listed more than once: {:?}", got)); }
                for f in want.values() { let own = ids(f, &cfg, &root); let seen: Vec<&String> = got.iter().filter(|x| own.contains(x)).collect(); if a == b && seen != own.iter().collect::<Vec<_>>() { r.fail("order", input.clone(), format!("the tests of {} are listed as {:?}", f.name, seen)); } }
                let e: BTreeSet<String> = errs.errors.iter().map(|x| x.0.clone()).collect();
                if e != bad { r.fail("errors", input.clone(), format!("errors for {:?}, the broken files are {:?}", e, bad)); }
                let w: BTreeSet<&String> = errs.warnings.iter().map(|x| &x.message).collect();
                if w.len() != open { r.fail("warnings", input.clone(), format!("{} warnings, {} tests cannot be expanded: {:?}", w.len(), open, w)); }
            }
        }
    }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    let n = if thorough { 150 } else { 16 };
    let mut r = Report::new(prop, 5 * n as u64);
    let mut g = Rng::new(seed);
    let top = std::env::current_dir().unwrap().join("tree");
    for _ in 0..n { round(&mut r, &mut g, &top, 5); }
    let _ = std::env::set_current_dir(top.parent().unwrap());
    let _ = std::fs::remove_dir_all(&top);
    r
}
