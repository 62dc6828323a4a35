// Executable form of C24: the real discovery runs on random module trees with class hierarchies; CPython imports the same modules and
// says which functions, classes and (inherited) methods they have.
use crate::common::*;
use super::*;
use std::path::{Path, PathBuf};
use crate::python_discovery::cases::CasesExpansion;

const ORACLE: &str = r#"
import ast, fnmatch, importlib, inspect, json, sys, warnings
warnings.simplefilter('ignore')
root, extra = sys.argv[1], sys.argv[2]
sys.path[:0] = [root, extra]
def hit(pats, n): return any(fnmatch.fnmatchcase(n, p) for p in pats)
def foreign(k): t = k.__module__.split('.')[0]; return k is object or t in sys.stdlib_module_names or t == 'nowhere'
def num(f):
    c = getattr(f, '__rtest_cases__', None)
    return c[0].argvalues[0] if c else None
def first(k, n):
    if foreign(k): return None
    if n in k.__dict__: return k.__dict__[n]
    for b in k.__bases__:
        f = first(b, n)
        if f is not None: return f
for line in sys.stdin:
    q = json.loads(line)
    try: m = importlib.import_module(q['module'])
    except BaseException as e: print(json.dumps({'error': repr(e)})); continue
    t = ast.parse(open(q['file']).read())
    fs, cs = {}, []
    for s in t.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and hit(q['functions'], s.name): fs[s.name] = num(m.__dict__[s.name])
        if isinstance(s, ast.ClassDef) and hit(q['classes'], s.name) and s.name not in cs: cs.append(s.name)
    out, warn = [[None, n, v] for n, v in fs.items()], []
    for c in cs:
        k = m.__dict__[c]
        user = [b for b in k.__mro__ if not foreign(b)]
        if any('__init__' in b.__dict__ for b in user): warn.append(c); continue
        for n in sorted({n for b in user for n, v in b.__dict__.items() if inspect.isfunction(v) and hit(q['functions'], n)}):
            f = getattr(k, n)
            out.append([c, n, num(f) if f is first(k, n) else -1])
    print(json.dumps({'tests': out, 'warnings': warn}))
"#;
#[derive(Clone)]
struct C { module: usize, name: String, generic: bool, anc: Vec<usize> }
struct M { dotted: Vec<String>, pkg: bool, file: PathBuf, text: String }
struct T { m: usize, cfg: TestDiscoveryConfig }
struct W { ms: Vec<M>, cs: Vec<C>, n: usize }

fn method_names(g: &mut Rng) -> Vec<String> {
    let all = ["test_a", "test_b", "test_c", "test_d", "check_e", "helper", "testing", "test"];
    let mut v: Vec<String> = (0..g.below(4)).map(|_| g.pick(&all).to_string()).collect();
    if g.below(5) > 0 { let mut u: Vec<String> = vec![]; for x in v { if !u.contains(&x) { u.push(x); } } v = u; }     // sometimes a name twice
    v
}
fn defs(w: &mut W, g: &mut Rng, ind: &str, names: &[String], me: bool) -> String {
    let mut s = String::new();
    for n in names {
        w.n += 1;
        s += &format!("{}@rtest.mark.cases(\"x\", [{}])\n{}{}def {}({}x=0): pass\n", ind, w.n, ind, if g.below(8) == 0 { "async " } else { "" }, n, if me { "self, " } else { "" });
    }
    s
}
/// an import of class c into module m, and the expression that names it
fn import(g: &mut Rng, w: &W, m: usize, c: &C, k: usize) -> (String, String) {
    let to = &w.ms[c.module].dotted; let cur = &w.ms[m].dotted; let pkg = w.ms[m].pkg;
    let sub = if c.generic && g.below(2) == 0 { "[int]" } else { "" };
    let up = if pkg { cur.len() } else { cur.len() - 1 };           // the package relative imports start from
    let mut spell: Vec<String> = vec![to.join(".")];
    for l in 0..up { let base = &cur[..up - l]; if to.starts_with(base) && !base.is_empty() { spell.push(format!("{}{}", ".".repeat(l + 1), to[base.len()..].join("."))); } }
    let from = g.pick(&spell).clone();
    match g.below(4) {
        0 => (format!("from {} import {} as K{}\n", from, c.name, k), format!("K{}{}", k, sub)),
        1 => (format!("import {} as m{}\n", to.join("."), k), format!("m{}.{}{}", k, c.name, sub)),
        2 if to.len() > 1 => (format!("from {} import {} as m{}\n", to[..to.len() - 1].join("."), to[to.len() - 1], k), format!("m{}.{}{}", k, c.name, sub)),
        _ => (format!("from {} import {}\n", from, c.name), format!("{}{}", c.name, sub)),
    }
}
fn module(g: &mut Rng, w: &mut W, m: usize, target: bool) {
    let mut s = String::from("import rtest, abc, enum, unittest, collections.abc\nfrom typing import Generic, TypeVar\nfrom nowhere.lib import Alien\nimport nowhere\nT = TypeVar('T')\ndef make(): return type('Made', (), {})\n");
    let mut own: Vec<usize> = vec![]; let mut k = 0;
    let cnt = 1 + g.below(if target { 5 } else { 4 });
    for i in 0..cnt {
        if target && g.below(2) == 0 { let n = method_names(g); s += &defs(w, g, "", &n, false); }
        let form = g.below(4);
        let name = match form { 0 => format!("{}Base{}_{}", g.pick(&["", "_", "my"]), m, i), 1 if target => format!("Check{}_{}", m, i), _ => format!("Test{}_{}", m, i) };
        let mut bases: Vec<String> = vec![]; let mut anc: Vec<usize> = vec![]; let mut generic = false; let mut pre = String::new();
        let nb = [0, 1, 1, 2, 2, 3][g.below(6)];
        for _ in 0..nb {
            let local = !own.is_empty() && g.below(2) == 0;
            let pool: Vec<usize> = if local { own.clone() } else { (0..w.cs.len()).filter(|&j| w.cs[j].module != m).collect() };
            if pool.is_empty() { continue; }
            let j = *g.pick(&pool);
            if anc.contains(&j) || w.cs[j].anc.iter().any(|a| anc.contains(a) && bases.len() > 0 && w.cs[j].anc.contains(a) && g.below(3) > 0) { continue; }
            let c = w.cs[j].clone();
            let e = if c.module == m { c.name.clone() } else { k += 1; let (l, e) = import(g, w, m, &c, k); if s.contains(&format!("class {}(", c.name)) || s.contains(&format!("class {}:", c.name)) { continue; } pre += &l; e };
            bases.push(e); anc.push(j); anc.extend(c.anc.iter().cloned());
        }
        match g.below(14) { 0 => bases.push("unittest.TestCase".into()), 1 => bases.push("abc.ABC".into()), 2 if bases.is_empty() => bases.push("enum.Enum".into()), 3 => bases.push("Alien".into()), 4 => bases.push("make()".into()),
            5 if anc.is_empty() => { bases.push("Generic[T]".into()); generic = true; } 6 if anc.is_empty() => bases.push("nowhere.Thing".into()), 7 => bases.push("object".into()), _ => {} }
        if bases.len() > 1 && g.below(2) == 0 && matches!(bases.last().unwrap().as_str(), "unittest.TestCase" | "Alien" | "make()" | "nowhere.Thing") { let b = bases.pop().unwrap(); bases.insert(0, b); }
        let mut body = { let n = method_names(g); defs(w, g, "    ", &n, true) };
        if g.below(if target { 9 } else { 6 }) == 0 { body += "    def __init__(self): pass\n"; }
        if g.below(6) == 0 { body += "    attr = 1\n"; }
        if g.below(8) == 0 { body += "    class TestInner:\n        def test_inner(self): pass\n"; }
        if body.is_empty() { body = "    pass\n".into(); }
        let head = if bases.is_empty() { format!("class {}:\n", name) } else { format!("class {}({}):\n", name, bases.join(", ")) };
        s += &pre; s += &head; s += &body;
        if target && i + 1 == cnt && g.below(4) == 0 { let n = method_names(g); s += &format!("class {}:\n{}    pass\n", name, defs(w, g, "    ", &n, true)); }     // defined again
        w.cs.push(C { module: m, name, generic, anc }); own.push(w.cs.len() - 1);
    }
    if target && g.below(2) == 0 { let n = method_names(g); s += &defs(w, g, "", &n, false); }
    w.ms[m].text = s;
}
fn tree(r: &mut Report, g: &mut Rng, root: &Path, extra: &Path, targets: usize) {
    let _ = std::fs::remove_dir_all(root); let _ = std::fs::remove_dir_all(extra);
    let _ = std::fs::create_dir_all(extra.join("nowhere")); let _ = std::fs::write(extra.join("nowhere/__init__.py"), "class Thing: pass\n"); let _ = std::fs::write(extra.join("nowhere/lib.py"), "class Alien: pass\n");
    let mut w = W { ms: vec![], cs: vec![], n: 0 };
    let f = |p: &str| root.join(p);
    let d = |p: &str| p.split('.').map(String::from).collect::<Vec<_>>();
    for (p, pkg, file) in [("base_lib", false, "base_lib.py"), ("pk", true, "pk/__init__.py"), ("pk.mid", false, "pk/mid.py"), ("pk.inner", true, "pk/inner/__init__.py"), ("pk.inner.types", false, "pk/inner/types.py")] {
        w.ms.push(M { dotted: d(p), pkg, file: f(file), text: String::new() });
    }
    let helpers = w.ms.len();
    for m in 0..helpers { let keep = w.cs.clone(); if w.ms[m].pkg { w.cs.retain(|c| w.ms[c.module].dotted[0] != "pk"); } let seen = w.cs.clone(); module(g, &mut w, m, false); if w.ms[m].pkg && g.below(2) == 0 { w.ms[m].text = String::new(); w.cs = keep; } else if w.ms[m].pkg { let added: Vec<C> = w.cs[seen.len()..].to_vec(); let shift = |a: usize| if a < seen.len() { keep.iter().position(|x| x.name == seen[a].name).unwrap() } else { a - seen.len() + keep.len() }; w.cs = keep.clone(); for mut c in added { c.anc = c.anc.iter().map(|&a| shift(a)).collect(); w.cs.push(c); } } }
    let mut ts: Vec<T> = vec![];
    for t in 0..targets {
        let dir = *g.pick(&["", "pk", "pk.inner"]);
        let name = format!("test_t{}", t);
        let m = w.ms.len();
        let dotted = if dir.is_empty() { vec![name.clone()] } else { d(&format!("{}.{}", dir, name)) };
        w.ms.push(M { file: f(&format!("{}{}{}.py", dir.replace('.', "/"), if dir.is_empty() { "" } else { "/" }, name)), dotted, pkg: false, text: String::new() });
        let keep = w.cs.clone();
        module(g, &mut w, m, true);
        w.cs = keep;
        let cfg = TestDiscoveryConfig { python_classes: match g.below(3) { 0 => vec!["Test*".into(), "Check*".into()], 1 => vec!["Check*".into()], _ => vec!["Test*".into()] }, python_functions: match g.below(3) { 0 => vec!["test_*".into(), "check_*".into()], 1 => vec!["test_*".into()], _ => vec!["test*".into()] } };
        ts.push(T { m, cfg });
    }
    for m in &w.ms { let _ = std::fs::create_dir_all(m.file.parent().unwrap()); let _ = std::fs::write(&m.file, &m.text); }
    use std::io::Write; use std::process::*;
    let q: String = ts.iter().map(|t| serde_json::json!({"module": w.ms[t.m].dotted.join("."), "file": w.ms[t.m].file, "functions": t.cfg.python_functions, "classes": t.cfg.python_classes}).to_string() + "\n").collect();
    let Ok(mut ch) = Command::new(std::env::var("VX_PYTHON").unwrap_or("python3".into())).args(["-B", "-c", ORACLE]).arg(root).arg(extra).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() else { return };
    let _ = ch.stdin.take().unwrap().write_all(q.as_bytes());
    let Ok(o) = ch.wait_with_output() else { return };
    let outs: Vec<serde_json::Value> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    for (t, v) in ts.iter().zip(&outs) {
        if let Some(e) = v["error"].as_str() { if std::env::var("VX_DEBUG").is_ok() { eprintln!("oracle: {}", e); } continue; }
        let m = &w.ms[t.m];
        let others: String = w.ms[..helpers].iter().map(|m| format!("# {}\n{}", m.file.strip_prefix(root).unwrap().display(), m.text)).collect();
        let input = format!("# {} (python_classes {:?}, python_functions {:?})\n{}{}", m.file.strip_prefix(root).unwrap().display(), t.cfg.python_classes, t.cfg.python_functions, m.text, others);
        r.case(&input, true);
        let cfg = t.cfg.clone();
        let got = std::panic::catch_unwind(|| discover_tests_with_inheritance(&m.file, &m.text, &cfg, root));
        let (tests, warns) = match got { Ok(Ok(x)) => x, Ok(Err(e)) => { r.fail("error", input.clone(), format!("discovery failed: {}", e)); continue } Err(_) => { r.fail("panic", input.clone(), "discovery panicked".into()); continue } };
        let mut want: Vec<(Option<String>, String, Option<i64>)> = v["tests"].as_array().unwrap().iter().map(|x| (x[0].as_str().map(String::from), x[1].as_str().unwrap().to_string(), x[2].as_i64())).collect();
        for x in &tests {
            let what = match &x.class_name { Some(c) => format!("{}::{}", c, x.name), None => x.name.clone() };
            let Some(i) = want.iter().position(|y| y.0 == x.class_name && y.1 == x.name) else { r.fail("listed", input.clone(), format!("{} is listed {}", what, if v["tests"].as_array().unwrap().iter().any(|y| y[1] == x.name && y[0].as_str() == x.class_name.as_deref()) { "twice" } else { "but is no test of the file" })); continue };
            let (_, _, n) = want.remove(i);
            if let (Some(n), CasesExpansion::Expanded(c)) = (n, &x.cases_expansion) { if n >= 0 && (c.len() != 1 || c[0].case_id != n.to_string()) { r.fail("definition", input.clone(), format!("{} is listed with the cases {:?}, the definition in force has [{}]", what, c.iter().map(|c| c.case_id.clone()).collect::<Vec<_>>(), n)); } }
            if x.is_method != x.class_name.is_some() { r.fail("kind", input.clone(), format!("{}: is_method {}", what, x.is_method)); }
        }
        for (c, n, _) in want { r.fail("missing", input.clone(), format!("{}{} is not listed", c.map(|c| c + "::").unwrap_or_default(), n)); }
        let left: Vec<String> = v["warnings"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        for c in &left { if warns.iter().filter(|w| w.message.contains(&format!("'{}'", c))).count() == 0 { r.fail("warning", input.clone(), format!("the class {} left out for its __init__ has no warning of its own: {:?}", c, warns.iter().map(|w| w.message.clone()).collect::<Vec<_>>())); } }
        // of a class defined again, only the last definition counts; what is said about the one it replaces is not looked at
        let twice = |n: &str| m.text.matches(&format!("class {}(", n)).count() + m.text.matches(&format!("class {}:", n)).count() > 1;
        let warns: Vec<_> = warns.into_iter().filter(|w| !w.message.split('\'').nth(1).map_or(false, |n| twice(n) && !left.iter().any(|l| l == n))).collect();
        if warns.iter().any(|w| !left.iter().any(|c| w.message.contains(&format!("'{}'", c)))) || (warns.len() > left.len() && !left.iter().any(|c| twice(c))) { r.fail("warnings", input.clone(), format!("warnings {:?} for the classes {:?}", warns.iter().map(|w| w.message.clone()).collect::<Vec<_>>(), left)); }
        for w in &warns { if w.file_path != m.file.to_string_lossy() { r.fail("warned", input.clone(), format!("a warning about {}", w.file_path)); } }
    }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let n = if thorough { 150 } else { 24 };
    let mut r = Report::new(prop, n as u64);
    let mut g = Rng::new(seed);
    let cwd = std::env::current_dir().unwrap();
    let (root, extra) = (cwd.join("tree"), cwd.join("extra"));
    for _ in 0..n { tree(&mut r, &mut g, &root, &extra, 8); if r.fails.len() >= 5 { break; } }
    let _ = std::fs::remove_dir_all(&root); let _ = std::fs::remove_dir_all(&extra);
    r
}
