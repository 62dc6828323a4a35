// Executable form of C22: the real discovery runs on random package trees; every module has its own `Base`, so the inherited tests
// tell which module a base class was taken from.
use crate::common::*;
use super::*;
use std::path::{Path, PathBuf};
use std::collections::BTreeMap;

type Mod = Vec<String>;
struct M { path: Mod, pkg: bool, file: PathBuf, uid: usize, parent: Option<usize>, from: String }
/// Python's rule
fn target(cur: &Mod, pkg: bool, level: usize, parts: &[String]) -> Option<Mod> {
    if level == 0 { return Some(parts.to_vec()); }
    let n = if pkg { level - 1 } else { level };
    if n > cur.len() { return None; }
    let mut v = cur[..cur.len() - n].to_vec(); v.extend_from_slice(parts); Some(v)
}
struct Imp { line: String, expr: String, to: Option<Mod>, level: usize }
/// an import statement in module `cur` and the base-class expression that uses it
fn import(g: &mut Rng, cur: &Mod, pkg: bool, want: Option<&Mod>, k: usize, others: &[Mod]) -> Imp {
    let top = if pkg { cur.len() + 1 } else { cur.len() };
    let dots = |l: usize| ".".repeat(l);
    // which levels can name the wanted module
    let (level, parts): (usize, Mod) = match want {
        Some(w) => {
            let mut c: Vec<(usize, Mod)> = vec![(0, w.clone())];
            for l in 1..=top { let n = if pkg { l - 1 } else { l }; let base = &cur[..cur.len() - n]; if w.starts_with(base) { let c1 = (l, w[base.len()..].to_vec()); c.push(c1.clone()); c.push(c1); } }
            c[g.below(c.len())].clone()
        }
        None => { let l = g.below(top + 3); let o: &Mod = g.pick(others); let n = g.below(o.len() + 1); (l, o[o.len() - n..].to_vec()) }
    };
    let sub = if g.below(3) == 0 { "[int]" } else { "" };
    let spell = |l: usize, p: &[String]| format!("{}{}", dots(l), p.join("."));
    let to = target(cur, pkg, level, &parts);
    let form = g.below(4);
    let (line, expr) = if (level == 0 && parts.is_empty()) || (level == 0 && form == 0) {
        if parts.is_empty() { return Imp { line: String::new(), expr: "object".into(), to: None, level: 0 }; }
        let as_ = parts.len() > 1 || g.below(2) == 0;
        if as_ { (format!("import {} as A{}", parts.join("."), k), format!("A{}.Base", k)) } else { (format!("import {}", parts[0]), format!("{}.Base", parts[0])) }
    } else if form <= 1 && !parts.is_empty() && !(level == 0 && parts.len() == 1) {
        let (last, head) = parts.split_last().unwrap();
        if g.below(2) == 0 { (format!("from {} import {} as A{}", spell(level, head), last, k), format!("A{}.Base", k)) }
        else { (format!("from {} import {}", spell(level, head), last), format!("{}.Base", last)) }
    } else if g.below(4) == 0 { (format!("from {} import Base", spell(level, &parts)), "Base".into()) }
    else { (format!("from {} import Base as B{}, Missing as N{}", spell(level, &parts), k, k), format!("B{}", k)) };
    Imp { line, expr: format!("{}{}", expr, sub), to, level }
}
fn chain(ms: &[M], i: usize) -> Vec<String> { let mut v = ms[i].parent.map(|p| chain(ms, p)).unwrap_or_default(); v.push(format!("test_from_{}", ms[i].uid)); v }
fn tree(r: &mut Report, g: &mut Rng, root: &Path, tests: usize) {
    let _ = std::fs::remove_dir_all(root);
    let names = ["zp", "zq", "zr"];
    let mut dirs: Vec<Mod> = vec![vec![]];
    for _ in 0..2 + g.below(4) { let mut d: Mod = g.pick(&dirs).clone(); d.push(g.pick(&names).to_string()); if d.len() <= 4 && !dirs.contains(&d) { dirs.push(d); } }
    let mut ms: Vec<M> = vec![];
    let mut src: Vec<String> = vec![];
    let file = |d: &Mod, f: &str| { let mut p = root.to_path_buf(); for c in d { p.push(c); } p.push(f); p };
    let mut plan: Vec<(Mod, bool, PathBuf)> = vec![];
    for d in &dirs {
        if !d.is_empty() && g.below(6) > 0 { plan.push((d.clone(), true, file(d, "__init__.py"))); }
        for n in ["zm", "zn"] { if g.below(4) > 0 { let mut p = d.clone(); p.push(n.into()); plan.push((p, false, file(d, &format!("{}.py", n)))); } }
    }
    if plan.is_empty() { return; }
    let all: Vec<Mod> = plan.iter().map(|p| p.0.clone()).collect();
    for i in (1..plan.len()).rev() { let j = g.below(i + 1); plan.swap(i, j); }
    for (k, (path, pkg, f)) in plan.into_iter().enumerate() {
        let mut parent = None; let mut from = String::new(); let mut s = String::new();
        if k > 0 && g.below(2) == 0 {
            let p = g.below(k); let w: Mod = ms[p].path.clone();
            let im = import(g, &path, pkg, Some(&w), 0, &all);
            if !im.expr.starts_with("Base") && im.expr != "object" { from = im.line.clone(); s = format!("{}\nclass Base({}):\n", im.line, im.expr); parent = Some(p); }
        }
        if s.is_empty() { s = "class Base:\n".into(); }
        s += &format!("    def test_from_{}(self): pass\n", k);
        ms.push(M { path, pkg, file: f, uid: k, parent, from }); src.push(s);
    }
    for (m, s) in ms.iter().zip(&src) { let _ = std::fs::create_dir_all(m.file.parent().unwrap()); let _ = std::fs::write(&m.file, s); }
    let cfg = TestDiscoveryConfig::default();
    for t in 0..tests {
        // the importing module: a test file somewhere, or a package's own __init__
        let d = g.pick(&dirs).clone();
        let pkg = !d.is_empty() && g.below(4) == 0;
        let mut cur = d.clone(); if !pkg { cur.push(format!("test_t{}", t)); }
        let f = if pkg { file(&d, "__init__.py") } else { file(&d, &format!("test_t{}.py", t)) };
        let single = g.below(3) == 0;
        let mut text = String::new(); let mut want: Vec<(String, Vec<String>, bool)> = vec![];
        for k in 0..if single { 1 } else { 1 + g.below(4) } {
            let to: Option<Mod> = if single { None } else { Some(g.pick(&ms).path.clone()) };
            if to.as_ref() == Some(&cur) { continue; }
            let im = import(g, &cur, pkg, to.as_ref(), k, &all);
            if im.to.as_ref() == Some(&cur) { continue; }
            let c = format!("TestT{}", k);
            // each class is bound right after its import, so a later import of the same name would matter: keep names apart
            if text.contains(&format!("import {}\n", im.expr.split(&['.', '['][..]).next().unwrap())) { continue; }
            let local = im.expr.split(&['.', '['][..]).next().unwrap();
            if (local.starts_with('A') || local.starts_with('B')) && g.below(3) == 0 {      // an earlier binding of the same name: the later one counts
                let o = g.pick(&all).join(".");
                if !o.is_empty() { text += &match g.below(2) { 0 => format!("import {} as {}\n", o, local), _ => format!("from {} import Base as {}\n", o, local) }; }
            }
            text += &format!("{}\nclass {}({}):\n    def test_own_{}(self): pass\n", im.line, c, im.expr, k);
            let hit = im.to.as_ref().and_then(|p| ms.iter().position(|m| &m.path == p));
            let mut w = hit.map(|i| chain(&ms, i)).unwrap_or_default(); w.push(format!("test_own_{}", k));
            want.push((c, w, im.level > 0 && im.to.is_none()));
        }
        if want.is_empty() { continue; }
        let input = format!("module {:?} (package file: {}):\n{}with modules {}", cur, pkg, text, ms.iter().map(|m| format!("{}{}{}", m.path.join("."), if m.pkg { "/" } else { "" }, if m.from.is_empty() { String::new() } else { format!(" ({})", m.from) })).collect::<Vec<_>>().join(", "));
        r.case(&input, true);
        match discover_tests_with_inheritance(&f, &text, &cfg, root) {
            Ok((ts, _)) => {
                let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
                for x in ts { if let Some(c) = x.class_name { got.entry(c).or_default().push(x.name); } }
                for (c, w, _) in &want {
                    let mut a = got.get(c).cloned().unwrap_or_default(); let mut b = w.clone(); a.sort(); b.sort();
                    if a != b { r.fail("base", input.clone(), format!("{} has the tests {:?}, the module Python imports gives {:?}", c, a, b)); }
                }
            }
            Err(e) => if !want.iter().any(|w| w.2) { r.fail("error", input.clone(), format!("discovery failed: {}", e)); },
        }
    }
}
/// The same module name in several places: the directories of PYTHONPATH in turn, then the root; in each a package before a file.
fn lookup(r: &mut Report, g: &mut Rng, top: &Path) {
    let _ = std::fs::remove_dir_all(top);
    let root = top.join("project");
    let npp = g.below(3);
    let mut dirs: Vec<PathBuf> = (0..npp).map(|i| top.join(format!("lib{}", i))).collect();
    let gone = npp > 0 && g.below(4) == 0;          // one that is not there
    dirs.push(root.clone());
    let mods: Vec<Mod> = [&["zm"][..], &["zp"], &["zp", "zm"], &["zp", "zq", "zm"], &["zn"], &["zp", "zn"], &["zp", "time"], &["zp", "zq", "sys"], &["zr", "zq", "zm"]].iter().map(|m| m.iter().map(|x| x.to_string()).collect()).collect();
    let mut uid = 0; let mut files: Vec<(PathBuf, usize)> = vec![];
    let _ = std::fs::create_dir_all(&root);
    for (i, d) in dirs.iter().enumerate() {
        if gone && i == 0 { continue; }
        for m in &mods {
            let mut base = d.clone(); for c in &m[..m.len() - 1] { base.push(c); }
            let name = m.last().unwrap();
            for f in [base.join(name).join("__init__.py"), base.join(format!("{}.py", name))] {
                if g.below(3) == 0 { let _ = std::fs::create_dir_all(f.parent().unwrap()); let _ = std::fs::write(&f, format!("class Base:\n    def test_from_{}(self): pass\n", uid)); files.push((f, uid)); uid += 1; }
            }
        }
    }
    let find = |m: &Mod| -> Option<usize> {
        for d in &dirs {
            let mut base = d.clone(); for c in &m[..m.len() - 1] { base.push(c); }
            let name = m.last().unwrap();
            for f in [base.join(name).join("__init__.py"), base.join(format!("{}.py", name))] { if let Some(x) = files.iter().find(|x| x.0 == f) { return Some(x.1); } }
        }
        None
    };
    let mut text = String::new(); let mut want: Vec<(String, Vec<String>)> = vec![];
    let mut order: Vec<usize> = (0..mods.len()).collect();
    for i in (1..order.len()).rev() { let j = g.below(i + 1); order.swap(i, j); }
    for (k, i) in order.iter().enumerate() {
        let m = &mods[*i];
        text += &match g.below(3) { 0 => format!("from {} import Base as B{}\nclass TestT{}(B{}):\n", m.join("."), k, k, k), 1 => format!("import {} as A{}\nclass TestT{}(A{}.Base):\n", m.join("."), k, k, k), _ => format!("from .{} import Base as B{}\nclass TestT{}(B{}):\n", m.join("."), k, k, k) };
        text += &format!("    def test_own_{}(self): pass\n", k);
        let mut w: Vec<String> = find(m).map(|u| vec![format!("test_from_{}", u)]).unwrap_or_default(); w.push(format!("test_own_{}", k));
        want.push((format!("TestT{}", k), w));
    }
    let broken = g.below(4) == 0;                   // a module that is there but cannot be read as one
    if broken { let _ = std::fs::write(root.join("zbad.py"), "class Base(:\n"); text += "from zbad import Base as Z\nclass TestZ(Z):\n    def test_own_z(self): pass\n"; }
    // a built-in module is nobody's file
    let _ = std::fs::write(root.join("sys.py"), "class Base:\n    def test_from_sys(self): pass\n");
    text += "from sys import Base as S\nclass TestS(S):\n    def test_own_s(self): pass\n"; want.push(("TestS".into(), vec!["test_own_s".into()]));
    let pp = std::env::join_paths(&dirs[..npp]).unwrap();
    let old = std::env::var_os("PYTHONPATH");
    if npp == 0 { std::env::remove_var("PYTHONPATH"); } else { std::env::set_var("PYTHONPATH", &pp); }
    let input = format!("PYTHONPATH={:?}, root {}, files {:?}, test_x.py:\n{}", pp, root.display(), files, text);
    r.case(&input, true);
    match discover_tests_with_inheritance(&root.join("test_x.py"), &text, &TestDiscoveryConfig::default(), &root) {
        Ok(_) if broken => r.fail("broken", input.clone(), "zbad.py does not parse, yet no error is reported".into()),
        Err(_) if broken => {}
        Ok((ts, _)) => for (c, w) in &want {
            let mut a: Vec<String> = ts.iter().filter(|x| x.class_name.as_ref() == Some(c)).map(|x| x.name.clone()).collect(); a.sort();
            let mut b = w.clone(); b.sort();
            if a != b { r.fail("lookup", input.clone(), format!("{} has the tests {:?}, the first module of that name gives {:?}", c, a, b)); }
        },
        Err(e) => r.fail("error", input.clone(), format!("discovery failed: {}", e)),
    }
    match old { Some(v) => std::env::set_var("PYTHONPATH", v), None => std::env::remove_var("PYTHONPATH") }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    let n = if thorough { 120 } else { 14 };
    let mut r = Report::new(prop, n as u64);
    let mut g = Rng::new(seed);
    let root = std::env::current_dir().unwrap().join("tree");
    for _ in 0..n { tree(&mut r, &mut g, &root, 8); }
    for _ in 0..2 * n { lookup(&mut r, &mut g, &root); }
    let _ = std::fs::remove_dir_all(&root);
    r
}
