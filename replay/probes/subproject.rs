// Executable form of the contracts of src/subproject.rs, run against the real public functions.
use crate::common::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

fn node_parts(n: &str) -> (&str, &str) { match n.find("::") { Some(i) => (&n[..i], &n[i..]), None => (n, "") } }
fn suffix(g: &mut Rng) -> String { g.pick(&["::test_a", "::TestA::test_b", "::t[a::b]", "::t[x/y.py]", "::", "", "::T::t[../z]", "::t[::]", ":x::t", "::é t"]).to_string() }
fn reroot(r: &mut Report, g: &mut Rng) {
    let old = PathBuf::from(g.pick(&["/r", "/r/p", "/", "/r/a b"]));
    let comps = ["a", "b", "sub", "a b", "aa", "test_x.py", "..", ".", "a:b", "é"];
    let newc: Vec<&str> = (0..g.below(3)).map(|_| *g.pick(&["a", "b", "sub", "a b", "aa"])).collect();
    let mut new = old.clone(); for c in &newc { new.push(c); }
    let ids: Vec<String> = (0..g.below(5)).map(|_| {
        let mut cs: Vec<String> = if g.below(2) == 0 { newc.iter().map(|s| s.to_string()).collect() } else { vec![] };
        for _ in 0..g.below(3) { cs.push(g.pick(&comps).to_string()); }
        if g.below(3) > 0 || cs.is_empty() { cs.push("test_a.py".into()); }
        let mut f = cs.join(if g.below(9) == 0 { "//" } else { "/" });
        if g.below(10) == 0 { f = format!("./{}", f); }
        if g.below(10) == 0 { f = old.join(&f).to_string_lossy().into_owned(); }
        format!("{}{}", f, suffix(g)) }).collect();
    let input = format!("old={} new={} ids={}", old.display(), new.display(), qs(&ids));
    r.case(&input, !ids.is_empty() && old != new);
    let (i2, o2, n2) = (ids.clone(), old.clone(), new.clone());
    let got = match std::panic::catch_unwind(move || super::make_test_paths_relative(&i2, &o2, &n2)) { Ok(g) => g, Err(_) => { r.fail("panic", input, "panicked".into()); return } };
    let sh = format!("result {}", qs(&got));
    if got.len() != ids.len() { r.fail("count", input, format!("number of ids changed; {}", sh)); return; }
    for (a, b) in ids.iter().zip(got.iter()) {
        let (f, rest) = node_parts(a); let abs = old.join(f);
        if !abs.starts_with(&new) { if a != b { r.fail("outside", input.clone(), format!("{:?} is outside but became {:?}", a, b)); } continue; }
        // the file part of the result: what precedes the unchanged rest
        match b.strip_suffix(rest) {
            None => r.fail("rest", input.clone(), format!("{:?} became {:?}: the part after the file changed", a, b)),
            Some(bf) => {
                if rest.is_empty() && b.contains("::") { r.fail("rest", input.clone(), format!("{:?} became {:?}", a, b)); }
                if new.join(bf) != abs { r.fail("file", input.clone(), format!("{:?} became {:?}, which denotes {}", a, b, new.join(bf).display())); }
            }
        }
    }
}
fn group(r: &mut Report, g: &mut Rng, k: usize) {
    let base = std::env::current_dir().unwrap().canonicalize().unwrap().join(format!("g{}", k));
    let root = base.join("root"); std::fs::create_dir_all(&root).unwrap();
    let mut ds = vec![root.clone()];
    for _ in 0..g.below(7) { let d = g.pick(&ds).join(g.pick(&["a", "b", "c", "a b", "rootx"])); std::fs::create_dir_all(&d).unwrap(); if !ds.contains(&d) { ds.push(d); } }
    let out = base.join("rootx"); std::fs::create_dir_all(out.join("o")).unwrap(); std::fs::write(out.join("pyproject.toml"), "").unwrap();
    for d in ds.clone() { if g.below(3) == 0 { std::fs::write(d.join("pyproject.toml"), "").unwrap(); } }
    let mut fs: Vec<PathBuf> = vec![];
    for _ in 0..1 + g.below(6) { let f = g.pick(&ds).join(g.pick(&["test_a.py", "test_b.py", "x.py"])); std::fs::write(&f, "").unwrap(); if !fs.contains(&f) { fs.push(f); } }
    let of = out.join("o/test_o.py"); std::fs::write(&of, "").unwrap();
    if g.below(2) == 0 { let l = g.pick(&ds).join("link.py"); let t = g.pick(&fs).clone(); if std::os::unix::fs::symlink(t, &l).is_ok() { fs.push(l); } }
    if g.below(3) == 0 { let l = g.pick(&ds).join("ld"); let t = g.pick(&ds).clone(); if std::os::unix::fs::symlink(&t, &l).is_ok() { for f in fs.clone() { if let Ok(x) = f.strip_prefix(&t) { fs.push(l.join(x)); } } } }
    let mut ids: Vec<String> = vec![];
    for _ in 0..g.below(9) {
        let f = match g.below(12) { 0 => of.clone(), 1 => root.join("missing/test_m.py"), _ => g.pick(&fs).clone() };
        let mut t = match f.strip_prefix(&root) { Ok(x) => x.to_string_lossy().into_owned(), Err(_) => format!("../{}", f.strip_prefix(&base).unwrap().display()) };
        if g.below(8) == 0 { t = f.to_string_lossy().into_owned(); } else if g.below(8) == 0 { if let Some(d) = ds.iter().find(|d| d.parent() == Some(root.as_path())) { t = format!("{}/../{}", d.file_name().unwrap().to_string_lossy(), t); } } else if g.below(8) == 0 { t = format!("./{}", t); }
        ids.push(format!("{}{}", t, suffix(g)));
    }
    let expect = |id: &str| -> PathBuf { let (f, _) = node_parts(id);
        let Ok(p) = root.join(f).canonicalize() else { return root.clone() };
        if !p.starts_with(&root) { return root.clone(); }
        let mut cur = p.parent();
        while let Some(c) = cur { if c == root || !c.starts_with(&root) { break; } if c.join("pyproject.toml").exists() { return c.to_path_buf(); } cur = c.parent(); }
        root.clone() };
    let mut want: HashMap<PathBuf, Vec<String>> = HashMap::new();
    for id in &ids { want.entry(expect(id)).or_default().push(id.clone()); }
    let rel = |p: &Path| p.strip_prefix(&base).unwrap_or(p).to_string_lossy().into_owned();
    let show = |m: &HashMap<PathBuf, Vec<String>>| { let mut v: Vec<String> = m.iter().map(|(k, x)| format!("{}: {}", rel(k), qs(x))).collect(); v.sort(); v.join("; ") };
    let toml: Vec<String> = ds.iter().filter(|d| d.join("pyproject.toml").exists()).map(|d| rel(d)).collect();
    let input = format!("pyproject.toml in {} ids={}", qs(&toml), qs(&ids));
    r.case(&input, ids.len() >= 2 && !toml.is_empty());
    let (ro, i2) = (root.clone(), ids.clone());
    match std::panic::catch_unwind(move || super::group_tests_by_subproject(&ro, &i2)) {
        Err(_) => r.fail("panic", input, "panicked".into()),
        Ok(got) => { let got: HashMap<PathBuf, Vec<String>> = got.into_iter().collect(); if got != want { r.fail("groups", input, format!("groups {} expected {}", show(&got), show(&want))); } }
    }
    std::fs::remove_dir_all(&base).unwrap();
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = Rng::new(seed);
    let n = match (prop, thorough) { ("C06", false) => 800, ("C06", true) => 6000, (_, false) => 4000, (_, true) => 100000 };
    let mut r = Report::new(prop, n as u64);
    for k in 0..n { if prop == "C06" { group(&mut r, &mut g, k); } else { reroot(&mut r, &mut g); } if r.fails.len() >= 5 { break; } }
    r
}
