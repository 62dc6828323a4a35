// Executable form of the contract of read_pytest_config, run against the real code on written-out project files.
use crate::common::*;
use std::path::{Path, PathBuf};
const OPTS: [&str; 4] = ["testpaths", "python_files", "python_classes", "python_functions"];
/// one option: its TOML text and the entries it must yield
fn option(g: &mut Rng) -> Option<(String, Vec<String>)> {
    let strs = ["tests", "a/b", "", " ", "test_*.py", "*_test.py", "Test*", "é", "a b", "..", "./x", "/abs/x", "x/", "it's", "a\tb", "0", "true", "[x]", "#no", "a,b", "test_*.py *_t.py"];
    let other = ["1", "-2.5", "true", "[]", "[\"n\"]", "{ a = \"b\" }", "1979-05-27", "{}", "inf"];
    match g.below(10) {
        0 | 1 => None,
        2 => Some((format!("{:?}", g.pick(&strs)), vec![])),                  // a text instead of a list: ignored
        3 => Some((g.pick(&["1", "true", "2.5", "{ x = [\"tests\"] }", "{}", "1979-05-27", "\"\"\"\ntests\n\"\"\""]).to_string(), vec![])),
        _ => { let mut t = vec![]; let mut w = vec![]; let many = if g.below(8) == 0 { 40 } else { 6 };
            for _ in 0..g.below(many) { if g.below(5) == 0 { t.push(g.pick(&other).to_string()); } else { let s = if g.below(4) == 0 { format!("p{}", g.below(50)) } else { g.pick(&strs).to_string() }; 
                t.push(if g.below(3) == 0 && !s.contains('\'') && !s.contains('\t') { format!("'{}'", s) } else { format!("\"{}\"", s.replace('\t', "\\t")) }); w.push(s); } }
            let sep = *g.pick(&[", ", ",", ",\n  ", " , # c\n"]); let tail = if !t.is_empty() && g.below(3) == 0 { ",\n" } else { "" };
            Some((format!("[{}{}]", t.join(sep), tail), w)) }
    }
}
struct Doc { text: Vec<u8>, want: [Vec<String>; 4], nontrivial: bool }
fn doc(g: &mut Rng) -> Doc {
    let none: [Vec<String>; 4] = Default::default();
    let mut want = none.clone(); let mut lines: Vec<(String, String)> = vec![]; let mut order = [0, 1, 2, 3];
    for i in 0..4 { let j = i + g.below(4 - i); order.swap(i, j); }
    for k in order { if let Some((t, w)) = option(g) { want[k] = w; lines.push((OPTS[k].to_string(), t)); } if g.below(6) == 0 { lines.push((format!("other{}", lines.len()), "[\"z\"]".into())); } }
    let before = *g.pick(&["", "[project]\nname = \"x\"\ntestpaths = [\"no\"]\n", "[tool.other]\npython_files = [\"no\"]\n", "[tool.pytest]\ntestpaths = [\"no\"]\n", "[pytest.ini_options]\ntestpaths = [\"no\"]\n", "\u{feff}", "# c\r\n", "[tool]\nx = 1\n", "testpaths = [\"no\"]\n"]);
    let after = *g.pick(&["", "\n[tool.zzz]\npython_classes = [\"no\"]\n", "\n[tool.pytest.ini_options2]\ntestpaths = [\"no\"]\n", "\n[tool.pytest.more]\na = 1\n"]);
    let plain = |ls: &Vec<(String, String)>| ls.iter().map(|(k, v)| format!("{} = {}\n", k, v)).collect::<String>();
    let inline_ok = lines.iter().all(|l| !l.1.contains('\n'));
    let body = match g.below(12) {
        0 if inline_ok && !before.contains("[tool") && before != "testpaths = [\"no\"]\n" => format!("[tool.pytest]\nini_options = {{ {} }}\n", lines.iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>().join(", ")),
        1 if !before.contains("tool") && !before.contains("[p") && !after.contains("pytest") && !after.contains("tool") => lines.iter().map(|(k, v)| format!("tool.pytest.ini_options.{} = {}\n", k, v)).collect(),
        2 => format!("[tool.pytest.\"ini_options\"]\n{}", plain(&lines)),
        // sections that are not the one asked for
        3 => { want = none.clone(); format!("[tool.pytest.ini]\n{}", plain(&lines)) }
        4 => { want = none.clone(); format!("[[tool.pytest.ini_options]]\n{}", plain(&lines)) }
        5 if !before.contains("[tool.pytest]") && !after.contains("tool.pytest") => { want = none.clone(); format!("[tool]\npytest = {}\n", g.pick(&["1", "\"x\"", "[1]", "[{ ini_options = { testpaths = [\"no\"] } }]"])).replace("[tool]\n", if before.contains("[tool]") { "" } else { "[tool]\n" }) }
        _ => format!("[tool.pytest.ini_options]\n{}", plain(&lines)),
    };
    let mut text = format!("{}{}{}", before, body, after).into_bytes();
    // damaged documents: nothing of them counts
    let nontrivial = want.iter().any(|w| !w.is_empty());
    match g.below(14) {
        0 => { text.extend_from_slice(b"\n= broken"); want = none; }
        1 => { text.extend_from_slice(b"\n[tool.pytest.ini_options]\n[tool.pytest.ini_options]\n"); want = none; }
        2 => { text.extend_from_slice(b"\nx = \"\xff\xfe\"\n"); want = none; }
        3 => { text.extend_from_slice(b"\n[unclosed\n"); want = none; }
        _ => {}
    }
    Doc { text, want, nontrivial }
}
fn one(r: &mut Report, g: &mut Rng, dir: &Path) {
    let mut d = doc(g);
    let file = dir.join("pyproject.toml"); let _ = std::fs::remove_file(&file); let _ = std::fs::remove_dir_all(&file);
    let shape = g.below(30);
    match shape { 0 => { d.want = Default::default(); }   // no file at all
        1 => { std::fs::create_dir(&file).unwrap(); d.want = Default::default(); }  // a directory of that name
        _ => std::fs::write(&file, &d.text).unwrap() }
    // what the parser itself makes of the text decides whether the document is well-formed
    if shape > 1 && String::from_utf8(d.text.clone()).ok().and_then(|t| toml::from_str::<toml::Value>(&t).ok()).is_none() { d.want = Default::default(); }
    let input = format!("pyproject.toml ({}): {}", match shape { 0 => "absent, not", 1 => "a directory, not", _ => "holds" }, String::from_utf8_lossy(&d.text));
    r.case(&input, d.nontrivial);
    let p = dir.to_path_buf();
    let got = std::panic::catch_unwind(move || super::read_pytest_config(&p));
    let Ok(got) = got else { r.fail("panic", input, "panicked".into()); return };
    let paths: Vec<PathBuf> = d.want[0].iter().map(PathBuf::from).collect();
    if got.testpaths != paths { r.fail("testpaths", input.clone(), format!("testpaths read as {:?}, expected {:?}", got.testpaths, paths)); }
    for (n, a, w) in [("python_files", &got.python_files, &d.want[1]), ("python_classes", &got.python_classes, &d.want[2]), ("python_functions", &got.python_functions, &d.want[3])] {
        if a != w { r.fail(n, input.clone(), format!("{} read as {:?}, expected {:?}", n, a, w)); } }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    let mut g = Rng::new(seed); let n = if thorough { 60000 } else { 6000 };
    let mut r = Report::new(prop, n as u64);
    let dir = std::env::current_dir().unwrap().join("cfg"); std::fs::create_dir_all(&dir).unwrap();
    for _ in 0..n { one(&mut r, &mut g, &dir); if r.fails.len() >= 5 { break; } }
    r
}
