// Executable form of C16/C21/C23 for the collection side: the real discovery runs on real Python sources (parsed by CPython's own `ast`
// through the stand-in parser crates), and the run-time side (python/rtest/mark.py) expands the same decorators.
use crate::common::*;
use super::*;
use crate::python_discovery::cases::CasesExpansion;

#[derive(Clone)]
struct V { src: String, text: String, many: usize, uncountable: bool }
fn pstr(s: &str) -> String { let mut o = String::from("'"); for c in s.chars() { if c == '\'' || c == '\\' { o.push('\\'); } o.push(c); } o.push('\''); o }
fn scalar(g: &mut Rng) -> V {
    let (src, text) = match g.below(7) {
        0 => { let i = *g.pick(&[0i64, 1, 2, 7, 42, -1, -7, i64::MAX, 1_000_000]); (i.to_string(), i.to_string()) }
        1 => ("True".into(), "True".into()), 2 => ("False".into(), "False".into()), 3 => ("None".into(), "None".into()),
        _ => { let s = *g.pick(&["a", "b", "a_1", "b_2", "x-y", "--flag", "-", "a b", "it's", "", "1", "True", "[z]", "a::b", "/", "_", "~", "a_1_1"]); (pstr(s), s.to_string()) } };
    V { src, text, many: 1, uncountable: false }
}
fn value(g: &mut Rng, n: usize) -> V {
    if n == 1 && g.below(6) > 0 { return scalar(g); }
    let parts: Vec<V> = (0..n).map(|_| if g.below(9) == 0 { let a = scalar(g); let b = scalar(g); V { src: format!("[{}, {}]", a.src, b.src), text: format!("{}-{}", a.text, b.text), many: 1, uncountable: false } } else { scalar(g) }).collect();
    let inner = parts.iter().map(|p| p.src.clone()).collect::<Vec<_>>().join(", ");
    let src = if g.below(2) == 0 { format!("({},)", inner) } else { format!("[{}]", inner) };
    V { src, text: parts.iter().map(|p| p.text.clone()).collect::<Vec<_>>().join("-"), many: n, uncountable: false }
}
#[derive(Clone)]
struct D { src: String, ids: Option<Vec<String>>, ids_given: bool }
/// one decorator; ids None = cannot be evaluated statically
fn decorator(g: &mut Rng, k: usize, hard: bool) -> D {
    let n = 1 + (g.below(3) == 0) as usize + (g.below(8) == 0) as usize;
    let names: Vec<String> = (0..n).map(|i| format!("a{}_{}", k, i)).collect();
    let nsrc = match g.below(3) { 0 => format!("({},)", names.iter().map(|x| pstr(x)).collect::<Vec<_>>().join(", ")), 1 => format!("[{}]", names.iter().map(|x| pstr(x)).collect::<Vec<_>>().join(", ")), _ => pstr(&names.join(*g.pick(&[",", ", ", " , "]))) };
    let cnt = if g.below(15) == 0 { 0 } else { 1 + g.below(3) };
    let vals: Vec<V> = (0..cnt).map(|_| value(g, n)).collect();
    let mut vsrc: Vec<String> = vals.iter().map(|v| v.src.clone()).collect();
    let mut ids: Vec<String> = vals.iter().map(|v| v.text.clone()).collect();
    let mut given = false; let mut unknown = false;
    let mut kw = String::new();
    if g.below(3) == 0 {
        given = true;
        let m = g.below(cnt + 2);
        let gv: Vec<String> = (0..m).map(|_| g.pick(&["p", "q", "p_1", "r r", "x-y", "p", ""]).to_string()).collect();
        if m >= cnt || cnt == 0 { kw = format!(", ids=[{}]", gv.iter().map(|x| pstr(x)).collect::<Vec<_>>().join(", ")); ids = gv.iter().take(cnt).cloned().collect(); } else { given = false; }
    } else if g.below(8) == 0 { kw = ", ids=None".into(); }
    let mut all = format!("[{}]", vsrc.join(", "));
    if g.below(3) == 0 && cnt > 0 { all = format!("({},)", vsrc.join(", ")); }
    if hard && g.below(2) == 0 {
        unknown = true;
        match g.below(15) {
            8 => all = "dup([1, 2])".into(), 9 => all = format!("dup([{}])", vsrc.join(", ")), 10 => all = "sorted([2, 1])[:1]".into(), 11 => all = "[1] * 2".into(), 12 => all = "[1] if get() else [2]".into(), 13 => all = "C.VALUES[:1]".into(), 14 => all = "dup((1, 2), [3])".into(),
            0 => all = "[x for x in range(2)]".into(), 1 => all = "get()".into(), 2 => all = "MISSING".into(), 3 => all = "list(range(3))".into(),
            4 => { vsrc.push("*EXTRA".into()); all = format!("[{}]", vsrc.join(", ")); }
            5 => { all = format!("[{}]", if vsrc.is_empty() { "1".into() } else { vsrc.join(", ") }); kw = ", ids=make_ids()".into(); }
            6 => { all = "[1, 2]".into(); kw = ", ids=['one', str(2)]".into(); }
            _ => all = "range(2)".into(),
        }
    }
    D { src: format!("@rtest.mark.cases({}, {}{})", nsrc, all, kw), ids: if unknown { None } else { Some(ids) }, ids_given: given }
}
fn product(st: &[D]) -> Vec<String> {     // decorators as written, top first: the one nearest the test varies slowest
    let mut acc: Vec<Vec<String>> = vec![vec![]];
    for d in st.iter().rev() { let mut n = vec![]; for a in &acc { for i in d.ids.as_ref().unwrap() { let mut x = a.clone(); x.push(i.clone()); n.push(x); } } acc = n; }
    acc.into_iter().map(|v| v.join("-")).collect()
}
fn suffixed(want: &[String], got: &[String]) -> Option<String> {
    if want.len() != got.len() { return Some(format!("{} cases, expected {}", got.len(), want.len())); }
    for i in 0..got.len() {
        if got[..i].contains(&got[i]) { return Some(format!("id {:?} given twice", got[i])); }
        let ok = got[i] == want[i] || (got[..i].contains(&want[i]) && got[i].strip_prefix(&format!("{}_", want[i])).map_or(false, |s| s.parse::<u64>().map_or(false, |n| n.to_string() == s)));
        if !ok { return Some(format!("case {} has id {:?}, expected {:?} or a numbered form of it", i, got[i], want[i])); }
    }
    None
}
const ORACLE: &str = r#"
import importlib, json, sys, warnings
warnings.simplefilter('ignore')
import rtest
importlib.import_module('rtest.mark')
M = sys.modules['rtest.mark']
ns = {}
exec(compile(sys.stdin.read(), 'oracle', 'exec'), ns)
for k, f in list(ns.items()):
    if not k.startswith('test_'): continue
    try: M.expand_parametrize(f)
    except ValueError: continue
    per = [[c.id if hasattr(c, 'id') else c[0] for c in M._expand_single_spec(s)] for s in getattr(f, '__rtest_cases__', [])]
    print(json.dumps([k, [c[0] for c in M.expand_parametrize(f)], per]))
for k, t in list(ns.items()):
    if not (k.startswith('Test') and isinstance(t, type)): continue
    for m, f in vars(t).items():
        if m.startswith('test_'): print(json.dumps([k + '::' + m, [c[0] for c in M.expand_parametrize(f)], []]))
"#;
fn runtime(src: &str) -> Option<std::collections::HashMap<String, (Vec<String>, Vec<Vec<String>>)>> {
    use std::io::Write; use std::process::*;
    let mut ch = Command::new(std::env::var("VX_PYTHON").unwrap_or("python3".into())).args(["-c", ORACLE]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    ch.stdin.take()?.write_all(src.as_bytes()).ok()?;
    let o = ch.wait_with_output().ok()?;
    if !o.status.success() { if std::env::var("VX_DEBUG").is_ok() { eprintln!("{}", String::from_utf8_lossy(&o.stderr)); } return None; }
    let mut m = std::collections::HashMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let v: serde_json::Value = serde_json::from_str(l).ok()?;
        let strs = |x: &serde_json::Value| -> Vec<String> { x.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("\0none").to_string()).collect()).unwrap_or_default() };
        m.insert(v[0].as_str()?.to_string(), (strs(&v[1]), v[2].as_array()?.iter().map(strs).collect()));
    }
    Some(m)
}
fn show(e: &CasesExpansion) -> String { match e { CasesExpansion::Expanded(c) => format!("expanded to {:?}", c.iter().map(|x| x.case_id.clone()).collect::<Vec<_>>()), CasesExpansion::NotDecorated => "not decorated".into(), CasesExpansion::CannotExpand(w) => format!("not expanded ({})", w) } }

fn batch(r: &mut Report, g: &mut Rng, prop: &str, size: usize) {
    let head = "import rtest\nEXTRA = list(range(2))\ndef get(): return [1, 2]\ndef make_ids(): return ['one', 'two', 'three', 'four']\nMISSING = get()\ndef dup(v, w=()): return [x for y in v for x in (y, y)]\nclass C: VALUES = [1, 2]\n";
    let (mut src, mut orc) = (head.to_string(), head.to_string());
    let mut want: Vec<(String, Vec<D>)> = vec![];      // full name -> decorators top first (class-level above)
    for k in 0..size {
        let hard = prop == "C21" && g.below(5) == 0;
        let st: Vec<D> = (0..g.below(4)).map(|j| decorator(g, j, hard)).collect();
        let lines = |d: &[D], ind: &str| d.iter().map(|x| format!("{}{}\n", ind, x.src)).collect::<String>();
        if g.below(3) == 0 {
            let cl: Vec<D> = (0..1 + g.below(2)).map(|j| decorator(g, 10 + j, hard)).collect();
            let own: Vec<D> = (0..g.below(3)).map(|j| decorator(g, 20 + j, hard)).collect();
            src += &lines(&cl, ""); src += &format!("class Test{}:\n{}    def test_m{}(self, **kw): pass\n", k, lines(&st, "    "), k);
            let both: Vec<D> = cl.iter().chain(st.iter()).cloned().collect();
            orc += &lines(&both, ""); orc += &format!("def test_m{}(**kw): pass\n", k);
            want.push((format!("Test{}::test_m{}", k, k), both));
            // a subclass with decorators of its own: they apply to the inherited test instead
            src += &lines(&own, ""); src += &format!("class TestSub{}(Test{}):\n    pass\n", k, k);
            let both: Vec<D> = own.iter().chain(st.iter()).cloned().collect();
            orc += &lines(&both, ""); orc += &format!("def test_s{}(**kw): pass\n", k);
            want.push((format!("TestSub{}::test_m{}", k, k), both));
        } else {
            src += &lines(&st, ""); src += &format!("def test_f{}(**kw): pass\n", k);
            orc += &lines(&st, ""); orc += &format!("def test_f{}(**kw): pass\n", k);
            want.push((format!("test_f{}", k), st));
        }
    }
    let cfg = TestDiscoveryConfig::default();
    let s2 = src.clone();
    let got = std::panic::catch_unwind(move || { let a = discover_tests(Path::new("test_x.py"), &s2, &TestDiscoveryConfig::default()); let b = discover_tests_with_inheritance(Path::new("/nonexistent/test_x.py"), &s2, &TestDiscoveryConfig::default(), Path::new("/nonexistent")); (a, b) });
    let _ = cfg;
    let (a, b) = match got { Ok((Ok(a), Ok((b, _)))) => (a, b), Ok(_) => { r.fail("error", src, "discovery failed".into()); return } Err(_) => { r.fail("panic", src, "discovery panicked".into()); return } };
    let rt = runtime(&orc);
    if rt.is_none() { r.fail("oracle", orc.clone(), "the run-time side rejects the decorators".into()); return; }
    let rt = rt.unwrap();
    for (name, st) in &want {
        let unknown = st.iter().any(|d| d.ids.is_none());
        let text = st.iter().map(|d| d.src.clone()).collect::<Vec<_>>().join(" | ");
        let input = format!("{} decorated (top first) {}", name, text);
        r.case(&text, st.len() >= 2);
        for (which, ts) in [("module discovery", &a), ("discovery with inheritance", &b)] {
            let full = |t: &TestInfo| match &t.class_name { Some(c) => format!("{}::{}", c, t.name), None => t.name.clone() };
            let hits: Vec<&TestInfo> = ts.iter().filter(|t| full(t) == *name).collect();
            if hits.len() != 1 { r.fail("found", input.clone(), format!("{}: discovered {} times", which, hits.len())); continue; }
            let e = &hits[0].cases_expansion;
            if unknown {
                if prop == "C21" && !matches!(e, CasesExpansion::CannotExpand(_)) { r.fail("unknown", input.clone(), format!("{}: a decorator cannot be evaluated statically, yet {}", which, show(e))); }
                continue;
            }
            if st.is_empty() { if !matches!(e, CasesExpansion::NotDecorated) { r.fail("plain", input.clone(), format!("{}: undecorated, yet {}", which, show(e))); } continue; }
            let CasesExpansion::Expanded(c) = e else { r.fail("expand", input.clone(), format!("{}: {}", which, show(e))); continue };
            let ids: Vec<String> = c.iter().map(|x| x.case_id.clone()).collect();
            if prop == "C16" { for i in 0..ids.len() { if ids[..i].contains(&ids[i]) { r.fail("unique", input.clone(), format!("{}: id {:?} twice in {:?}", which, ids[i], ids)); } }
                if st.iter().all(|d| d.ids_given) { if let Some(w) = suffixed(&product(st), &ids) { r.fail("given", input.clone(), format!("{}: {}; ids {:?}", which, w, ids)); } } continue; }
            if let Some(w) = suffixed(&product(st), &ids) { r.fail("product", input.clone(), format!("{}: {}; ids {:?}", which, w, ids)); continue; }
            let short = name.replace("::", "_"); let key = if name.starts_with("TestSub") { format!("test_s{}", name.split("test_m").nth(1).unwrap()) } else { name.rsplit("::").next().unwrap().to_string() }; let _ = short;
            match rt.get(&key) { None => r.fail("oracle", input.clone(), "no run-time expansion".into()),
                Some((dyn_ids, per)) => {
                    // the run-time numbers repeated ids per decorator first: comparable where no decorator repeats an id
                    let distinct = st.iter().all(|d| { let v = d.ids.as_ref().unwrap(); (0..v.len()).all(|i| !v[..i].contains(&v[i])) });
                    if dyn_ids.len() != ids.len() || (distinct && *dyn_ids != ids) { r.fail("runtime", input.clone(), format!("{}: static {:?}, run time {:?} (per decorator {:?})", which, ids, dyn_ids, per)); } } }
        }
    }
}
/// names that stand for lists and texts: whatever is expanded must be what the name holds when the decorator runs
fn names(r: &mut Report, g: &mut Rng, size: usize) {
    let mut src = String::from("import rtest\n");
    let mut want: Vec<(String, String, String, bool, String)> = vec![];     // test, prefix of its ids, suffix, must it be expanded, text for the report
    let vals = |g: &mut Rng| -> String { let n = 1 + g.below(3); (0..n).map(|_| loop { let v = scalar(g); if !v.src.starts_with('-') { break v.src; } }).collect::<Vec<_>>().join(", ") };
    for k in 0..size {
        let n = format!("N{}", k);
        let (a, b) = (vals(g), vals(g));
        let test = format!("@rtest.mark.cases('x', {})\ndef test_f{}(x): pass\n", n, k);
        let kind = g.below(30);
        let (mut text, mut must) = (String::new(), false);
        let mut full = format!("test_f{}", k); let mut pre = format!("{}[", n); let mut suf = "]".to_string();
        match kind {
            0 => { must = true; text = format!("{n} = [{a}]\n{test}") }
            1 => { must = true; text = format!("{n}: list = [{a}]\n{test}") }
            2 => { must = true; text = format!("{n}: list\n{n} = ({a},)\n{test}") }
            3 => { must = true; text = format!("{n} = [{a}]\nclass Z{k}:\n    {n} = [{b}]\n{test}") }
            4 => { must = true; text = format!("{n} = [{a}]\ndef f{k}():\n    {n} = [{b}]\n{test}") }
            5 => { must = true; text = format!("{n} = [9223372036854775808, 7, 0]\n{test}") }
            6 => text = format!("{n} = [{a}]\n{n} = [{b}]\n{test}"),
            7 => text = format!("{n} = [{a}]\n{test}{n} = [{b}]\n"),
            8 => text = format!("{n} = [{a}]\n{n} += [{b}]\n{test}"),
            9 => text = format!("{n} = [{a}]\nif True:\n    {n} = [{b}]\n{test}"),
            10 => text = format!("{n} = [{a}]\ntry:\n    {n} = [{b}]\nfinally:\n    pass\n{test}"),
            11 => text = format!("{n} = [{a}]\nfor {n} in [[{b}]]: pass\n{test}"),
            12 => text = format!("{n} = [{a}]\n{n}, _ = [{b}], 1\n{test}"),
            13 => text = format!("{n} = [{a}]\n{test}def {n}(): pass\n"),
            14 => text = format!("{n} = [{a}]\n{n} = dict.fromkeys([{b}, 5]).keys()\n{test}"),
            15 => text = format!("{n} = [{a}]\n{test}from os import sep as {n}\n"),
            16 => text = format!("{n} = [{a}]\nwhile True:\n    {n} = [{b}]\n    break\n{test}"),
            17 => text = format!("{n} = [{a}]\nif False: pass\nelif True:\n    {n} = [{b}]\n{test}"),
            18 | 19 => { full = format!("Test{k}::test_m"); text = format!("{n} = [{a}]\nclass Test{k}:\n    {n} = [{b}]\n    @rtest.mark.cases('x', {n})\n    def test_m(self, x): pass\n") }
            20 => { full = format!("Test{k}::test_m"); must = true; text = format!("{n} = [{a}]\nclass Test{k}:\n    OTHER = [{b}]\n    @rtest.mark.cases('x', {n})\n    def test_m(self, x): pass\n") }
            21 => { full = format!("Test{k}::test_m"); text = format!("{n} = [{a}]\nclass Test{k}:\n    if True:\n        {n} = [{b}]\n    @rtest.mark.cases('x', {n})\n    def test_m(self, x): pass\n") }
            22 | 23 => { pre.clear(); suf.clear(); must = true; text = format!("class K{k}:\n    A = 'p{k}'\n    class I:\n        B: str = 'q'\n        A = 'z'\nA{k} = 'r'\n@rtest.mark.cases('x', [1, 2, 3, 4], ids=[K{k}.A, K{k}.I.B, A{k}, K{k}.I.A])\ndef test_f{k}(x): pass\n") }
            24 => { pre.clear(); suf.clear(); text = format!("class K{k}:\n    A = 'p'\nclass K{k}:\n    A = 'q'\n@rtest.mark.cases('x', [1], ids=[K{k}.A])\ndef test_f{k}(x): pass\n") }
            25 => text = format!("{n} = [{a}, [7].pop(), {b}]\n{test}"),
            26 => text = format!("{n} = ({a}, len('ab'))\n{test}"),
            27 => { pre.clear(); suf.clear(); text = format!("A{k} = 'r'\ncfg{k} = type('C', (), dict(A{k}='q'))\n@rtest.mark.cases('x', [1], ids=[cfg{k}.A{k}])\ndef test_f{k}(x): pass\n") }
            28 => { pre.clear(); suf.clear(); text = format!("A{k} = 'r'\ndef make{k}(): return type('C', (), dict(A{k}='q'))\n@rtest.mark.cases('x', [1], ids=[make{k}().A{k}])\ndef test_f{k}(x): pass\n") }
            _ => { pre.clear(); suf.clear(); text = format!("class K{k}:\n    A = 'p'\n    A = 'q' * 2\n@rtest.mark.cases('x', [1], ids=[K{k}.A])\ndef test_f{k}(x): pass\n") }
        }
        src += &text; want.push((full, pre, suf, must, text));
    }
    let s2 = src.clone();
    let got = std::panic::catch_unwind(move || { let a = discover_tests(Path::new("test_x.py"), &s2, &TestDiscoveryConfig::default()); let b = discover_tests_with_inheritance(Path::new("/nonexistent/test_x.py"), &s2, &TestDiscoveryConfig::default(), Path::new("/nonexistent")); (a, b) });
    let (a, b) = match got { Ok((Ok(a), Ok((b, _)))) => (a, b), Ok(_) => { r.fail("error", src, "discovery failed".into()); return } Err(_) => { r.fail("panic", src, "discovery panicked".into()); return } };
    let Some(rt) = runtime(&src) else { r.fail("oracle", src.clone(), "the run-time side rejects the decorators".into()); return; };
    for (name, pre, suf, must, text) in &want {
        r.case(text, !*must);
        let Some((ids, _)) = rt.get(name) else { r.fail("oracle", text.clone(), "no run-time expansion".into()); continue };
        for (which, ts) in [("module discovery", &a), ("discovery with inheritance", &b)] {
            let full = |t: &TestInfo| match &t.class_name { Some(c) => format!("{}::{}", c, t.name), None => t.name.clone() };
            let Some(t) = ts.iter().find(|t| full(t) == *name) else { r.fail("found", text.clone(), format!("{}: not discovered", which)); continue };
            match &t.cases_expansion {
                CasesExpansion::CannotExpand(_) if !*must => {}
                CasesExpansion::Expanded(c) => { let st: Vec<String> = c.iter().map(|x| x.case_id.clone()).collect(); let wanted: Vec<String> = ids.iter().map(|i| format!("{}{}{}", pre, i, suf)).collect();
                    let distinct = (0..wanted.len()).all(|i| !wanted[..i].contains(&wanted[i])); let numbered = |i: usize| ids[i].rsplit_once('_').map_or(false, |(_, d)| d.parse::<u64>().is_ok());
                    // repeated values are numbered inside or outside the brackets: comparable where none repeats
                    if st.len() != wanted.len() || (distinct && !(0..ids.len()).any(numbered) && st != wanted) { r.fail("constant", text.clone(), format!("{}: static {:?}, run time {:?}", which, st, ids)); } }
                e => r.fail("constant", text.clone(), format!("{}: {}; run time {:?}", which, show(e), ids)),
            }
        }
    }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = Rng::new(seed);
    let n = if thorough { 120 } else { 16 };
    let mut r = Report::new(prop, n as u64);
    for _ in 0..n { batch(&mut r, &mut g, prop, 60); if prop == "C21" { names(&mut r, &mut g, 60); } if r.fails.len() >= 5 { break; } }
    r
}
