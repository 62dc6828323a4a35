// Executable form of the contracts of src/worker.rs, src/pytest_executor.rs and src/runner.rs, run against the real code
// with a scripted program that logs how it was started.
use crate::common::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const SCRIPT: &str = "#!/bin/sh\nhere=$(dirname \"$0\")\n{ pwd -P | tr -d '\\n'; printf '\\0'; if [ $# -gt 0 ]; then printf '%s\\0' \"$@\"; fi; } > \"$here/log/$$.args\"\nenv -0 > \"$here/log/$$.env\"\nprintf 'args:'; printf '<%s>' \"$@\"; echo; echo \"err:$#\" >&2\ncode=0\nfor a in \"$@\"; do case \"$a\" in *SLOW*) sleep 0.05;; esac; case \"$a\" in *BIG*) head -c 150000 /dev/zero | tr '\\0' x; head -c 150000 /dev/zero | tr '\\0' y >&2;; esac; case \"$a\" in *KILL*) kill -9 $$;; *EXIT*) c=${a##*EXIT}; code=${c%%_*};; esac; done\nexit $code\n";

pub struct Log { pub cwd: String, pub args: Vec<String>, pub env: HashMap<String, String> }
fn setup(d: &Path) -> PathBuf {
    for s in ["log", "root", "tmp"] { std::fs::create_dir_all(d.join(s)).unwrap(); }
    let script = d.join("prog"); std::fs::write(&script, SCRIPT).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    script
}
fn logs(d: &Path) -> Vec<Log> {
    let mut out = vec![];
    for e in std::fs::read_dir(d.join("log")).unwrap() {
        let p = e.unwrap().path(); if p.extension().map(|x| x != "args").unwrap_or(true) { continue; }
        let split = |b: Vec<u8>| -> Vec<String> { let mut v: Vec<String> = b.split(|c| *c == 0).map(|x| String::from_utf8_lossy(x).into_owned()).collect(); v.pop(); v };
        let mut a = split(std::fs::read(&p).unwrap()); if a.is_empty() { continue; } let cwd = a.remove(0);
        let env = split(std::fs::read(p.with_extension("env")).unwrap_or_default()).into_iter().filter_map(|l| l.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
        out.push(Log { cwd, args: a, env });
    }
    out
}
fn texts(g: &mut Rng, n: usize, pool: &[&str]) -> Vec<String> { let m = g.below(n + 1); (0..m).map(|_| g.pick(pool).to_string()).collect() }
fn env_pairs(g: &mut Rng) -> Vec<(String, String)> { (0..g.below(4)).map(|_| (g.pick(&["VXA", "VXB", "VX_C", "PYTHONPATH", "PYTHON_X", "PYTEST_ADDOPTS", "vxa", "DEBUG", "LANG", "VIRTUAL_ENV", "HOME", "_VX"]).to_string(), g.pick(&["", "1", "a=b", "=", "x y", "é", "'q'\"", "$HOME"]).to_string())).collect() }
fn want_env(e: &[(String, String)]) -> HashMap<String, String> { e.iter().cloned().collect() }
const ENVS: [&str; 8] = ["VX", "vx", "_VX", "PYT", "DEBUG", "LANG", "HOME", "VIRTUAL"];
const INIT: [&str; 7] = ["-m", "pytest", "run", "--x=1", "a b", "", "--rootdir"];
const EXTRA: [&str; 5] = ["-q", "-k", "a or b", "", "--"];
fn test_id(g: &mut Rng, i: usize, bad: bool) -> String {
    let e = if bad && g.below(4) == 0 { g.pick(&["EXIT1_", "EXIT2_", "EXIT5_", "EXIT255_", "KILL", "EXIT0_"]).to_string() } else { String::new() };
    let b = if g.below(25) == 0 { "BIG" } else if g.below(25) == 0 { "SLOW" } else { "" };
    format!("t{}.py::test_{}{}{}", i, e, b, g.pick(&["", "[a b]", "[x::y]", "[é]", "[\"]", "[a=b]"]))
}
fn code_of(args: &[String]) -> Option<i32> { let mut c = 0; for a in args { if a.contains("KILL") { return None; } if let Some(i) = a.rfind("EXIT") { let t = &a[i + 4..]; c = t[..t.find('_').unwrap()].parse().unwrap(); } } Some(c) }
fn big(args: &[String]) -> usize { args.iter().take_while(|a| !a.contains("KILL")).filter(|a| a.contains("BIG")).count() + if let Some(k) = args.iter().find(|a| a.contains("KILL")) { k.contains("BIG") as usize } else { 0 } }

fn pool(r: &mut Report, g: &mut Rng, k: usize) {
    let d = std::env::current_dir().unwrap().join(format!("w{}", k)); let prog = setup(&d);
    for s in ["p one", "p2"] { std::fs::create_dir_all(d.join("root").join(s)).unwrap(); }
    let n = g.below(6);
    let mut ids: Vec<usize> = (0..n).map(|i| if g.below(6) == 0 { g.below(4) } else { i * 3 }).collect();
    for i in 0..ids.len() { let j = g.below(ids.len()); ids.swap(i, j); }
    struct T { id: usize, started: bool, init: Vec<String>, tests: Vec<String>, extra: Vec<String>, dir: Option<PathBuf>, env: Vec<(String, String)> }
    let ts: Vec<T> = ids.iter().enumerate().map(|(i, id)| T { id: *id, started: g.below(15) > 0, init: texts(g, 3, &INIT), tests: (0..g.below(4)).map(|j| test_id(g, i * 10 + j, true)).collect(), extra: texts(g, 2, &EXTRA),
        dir: match g.below(4) { 0 => None, 1 => Some(d.join("root")), 2 => Some(d.join("root/p one")), _ => Some(d.join("root/p2")) }, env: env_pairs(g) }).collect();
    let here = std::env::current_dir().unwrap();
    let want_args = |t: &T| -> Vec<String> { let mut a = t.init.clone(); if let Some(x) = &t.dir { a.push("--rootdir".into()); a.push(x.to_string_lossy().into_owned()); } a.extend(t.tests.clone()); a.extend(t.extra.clone()); a };
    let rel = |s: &str| s.replace(&*d.to_string_lossy(), "DIR");
    let input = format!("workers: {}", ts.iter().map(|t| rel(&format!("(id={} started={} dir={:?} env={:?} args={})", t.id, t.started, t.dir, t.env, qs(&want_args(t))))).collect::<Vec<_>>().join(" "));
    r.case(&input, n >= 2);
    let mut p = crate::worker::WorkerPool::new();
    for t in &ts {
        p.spawn_worker(crate::worker::WorkerTask { worker_id: t.id, program: if t.started { prog.to_string_lossy().into_owned() } else { "/nonexistent/prog".into() }, initial_args: t.init.clone(), tests: t.tests.clone(),
            pytest_args: t.extra.clone(), working_dir: t.dir.clone(), env_vars: t.env.clone() });
    }
    let res = p.wait_for_all();
    let ls = logs(&d); std::fs::remove_dir_all(&d).unwrap();
    if res.len() != ts.len() { r.fail("count", input, format!("{} results for {} workers", res.len(), ts.len())); return; }
    if res.windows(2).any(|w| w[0].worker_id > w[1].worker_id) { r.fail("order", input.clone(), format!("result ids {:?}", res.iter().map(|x| x.worker_id).collect::<Vec<_>>())); }
    let mut left: Vec<&crate::worker::WorkerResult> = res.iter().collect();
    let mut ll: Vec<&Log> = ls.iter().collect();
    for t in &ts {
        let a = want_args(t);
        if !t.started { match left.iter().position(|x| x.worker_id == t.id && x.exit_code != 0 && x.stdout.is_empty()) { Some(i) => { left.remove(i); } None => r.fail("result", input.clone(), format!("no failing result for worker {} that could not be started", t.id)) } continue; }
        let so = format!("args:{}\n{}", if a.is_empty() { "<>".to_string() } else { a.iter().map(|x| format!("<{}>", x)).collect::<String>() }, "x".repeat(150000 * big(&a)));
        let se = format!("err:{}\n{}", a.len(), "y".repeat(150000 * big(&a)));
        let c = code_of(&a);
        match left.iter().position(|x| x.worker_id == t.id && x.stdout == so && x.stderr == se && (match c { Some(c) => x.exit_code == c, None => x.exit_code != 0 })) { Some(i) => { left.remove(i); }
            None => r.fail("result", input.clone(), format!("no result with id {} status {:?} and its own output; results: {}", t.id, c, rel(&res.iter().map(|x| format!("(id={} exit={} stdout={:?} stderr={:?})", x.worker_id, x.exit_code, x.stdout.chars().take(150).collect::<String>(), x.stderr.chars().take(80).collect::<String>())).collect::<String>()))) }
        let cwd = t.dir.clone().unwrap_or(here.clone()); let we = want_env(&t.env);
        match ll.iter().position(|l| l.args == a && Path::new(&l.cwd) == cwd && we.iter().all(|(k, v)| l.env.get(k) == Some(v))) { Some(i) => { ll.remove(i); }
            None => r.fail("command", input.clone(), format!("worker {} was not started as requested; started: {}", t.id, rel(&ls.iter().map(|l| format!("(cwd={} args={} env={:?})", l.cwd, qs(&l.args), l.env.iter().filter(|e| ENVS.iter().any(|k| e.0.starts_with(k))).collect::<Vec<_>>())).collect::<String>()))) }
    }
    if !ll.is_empty() { r.fail("command", input, format!("{} processes too many were started", ll.len())); }
}
fn executor(r: &mut Report, g: &mut Rng, k: usize) {
    let d = std::env::current_dir().unwrap().join(format!("e{}", k)); let prog = setup(&d);
    let started = g.below(15) > 0;
    let (init, tests, extra, env) = (texts(g, 3, &INIT), (0..g.below(4)).map(|j| test_id(g, j, true).replace("BIG", "")).collect::<Vec<_>>(), texts(g, 2, &EXTRA), env_pairs(g));
    let dir = if g.below(3) == 0 { None } else { Some(d.join("root")) };
    let mut a = init.clone(); if let Some(x) = &dir { a.push("--rootdir".into()); a.push(x.to_string_lossy().into_owned()); } a.extend(tests.clone()); a.extend(extra.clone());
    let input = format!("execute_tests started={} dir={:?} env={:?} args={}", started, dir.is_some(), env, qs(&a).replace(&*d.to_string_lossy(), "DIR"));
    r.case(&input, a.len() >= 3);
    let p = if started { prog.to_string_lossy().into_owned() } else { "/nonexistent/prog".to_string() };
    std::fs::write(d.join("case"), [vec![p], vec![dir.as_ref().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default()], vec![init.join("\x01")], vec![tests.join("\x01")], vec![extra.join("\x01")], vec![env.iter().map(|(k, v)| format!("{}\x02{}", k, v)).collect::<Vec<_>>().join("\x01")], vec![format!("{} {} {} {}", init.len(), tests.len(), extra.len(), env.len())]].concat().join("\0")).unwrap();
    let o = Command::new(std::env::current_exe().unwrap()).args(["child-exec", "0", "quick"]).env("VX_DIR", &d).output().unwrap();
    let status = status_of(&o.stdout);
    let ls = logs(&d); std::fs::remove_dir_all(&d).unwrap();
    let Some(status) = status else { r.fail("panic", input, "execute_tests did not return".into()); return };
    let want = if started { code_of(&a) } else { None };
    match want { Some(c) if status != c => r.fail("status", input.clone(), format!("status {} expected {}", status, c)), None if status == 0 => r.fail("status", input.clone(), "status 0 although the process failed".into()), _ => {} }
    let here = std::env::current_dir().unwrap(); let we = want_env(&env);
    if started && (ls.len() != 1 || ls[0].args != a || Path::new(&ls[0].cwd) != dir.clone().unwrap_or(here) || !we.iter().all(|(k, v)| ls[0].env.get(k) == Some(v))) {
        r.fail("command", input, format!("not started as requested; started: {}", ls.iter().map(|l| format!("(cwd={} args={} env={:?})", l.cwd, qs(&l.args), l.env.iter().filter(|e| ENVS.iter().any(|k| e.0.starts_with(k))).collect::<Vec<_>>())).collect::<String>())); }
}
fn status_of(out: &[u8]) -> Option<i32> { String::from_utf8_lossy(out).lines().rev().find_map(|l| l.strip_prefix("VX-STATUS ").and_then(|s| s.parse().ok())) }
fn items(s: &str, n: usize) -> Vec<String> { if n == 0 { vec![] } else { s.split('\x01').map(|x| x.to_string()).collect() } }
fn child_exec() -> ! {
    let d = PathBuf::from(std::env::var("VX_DIR").unwrap()); let t = std::fs::read_to_string(d.join("case")).unwrap(); let f: Vec<&str> = t.split('\0').collect();
    let n: Vec<usize> = f[6].split(' ').map(|x| x.parse().unwrap()).collect();
    let env: Vec<(String, String)> = items(f[5], n[3]).iter().map(|x| { let (a, b) = x.split_once('\x02').unwrap(); (a.to_string(), b.to_string()) }).collect();
    let dir = if f[1].is_empty() { None } else { Some(PathBuf::from(f[1])) };
    let c = crate::pytest_executor::execute_tests(f[0], &items(f[2], n[0]), items(f[3], n[1]), items(f[4], n[2]), dir.as_deref(), &env);
    println!("\nVX-STATUS {}", c); std::process::exit(0);
}
fn child_run() -> ! {
    let d = PathBuf::from(std::env::var("VX_DIR").unwrap()); let t = std::fs::read_to_string(d.join("case")).unwrap(); let f: Vec<&str> = t.split('\0').collect();
    let n: Vec<usize> = f[5].split(' ').map(|x| x.parse().unwrap()).collect();
    let runner = super::PytestRunner::new(items(f[4], n[1]));
    let root = d.join("root");
    let config = super::ParallelExecutionConfig { program: f[0], initial_args: &runner.initial_args, worker_count: n[2], dist_mode: f[1], rootpath: &root, use_subprojects: f[2] == "1", env_vars: &runner.env_vars };
    let c = super::execute_tests_parallel(&config, items(f[3], n[0]));
    println!("\nVX-STATUS {}", c); std::process::exit(0);
}
fn parallel(r: &mut Report, g: &mut Rng, k: usize) {
    let base = std::env::current_dir().unwrap().canonicalize().unwrap();
    let d = base.join(format!("r{}", k)); let prog = setup(&d); let root = d.join("root");
    let dirs = ["", "a", "a/b", "c", "a b"];
    for x in dirs { std::fs::create_dir_all(root.join(x)).unwrap(); if !x.is_empty() && g.below(2) == 0 { std::fs::write(root.join(x).join("pyproject.toml"), "").unwrap(); } }
    let nt = if g.below(10) == 0 { 0 } else { 1 + g.below(9) };
    let bad = g.below(2) == 0;
    let tests: Vec<String> = (0..nt).map(|_| { let x = g.pick(&dirs); let f = format!("{}{}test_{}.py", x, if x.is_empty() { "" } else { "/" }, g.below(3)); if g.below(10) > 0 { std::fs::write(root.join(&f), "").unwrap(); }
        let t = test_id(g, 0, bad); format!("{}::{}{}", f, g.pick(&["", "", "TestA::", "TestB::"]), &t[t.find("::").unwrap() + 2..]) }).collect();
    let mode = if g.below(14) == 0 { "each" } else { *g.pick(&["load", "loadscope", "loadfile", "worksteal", "no"]) };
    let n = g.below(6); let sub = g.below(2) == 0; let started = g.below(15) > 0;
    let envs: Vec<String> = (0..g.below(4)).map(|_| g.pick(&["VXA=1", "VXA=a=b", "VXB=", "VXB==", "VX_C=x y", "BAD", "VXB=é", "PYTHONPATH=/x:/y", "PYTEST_ADDOPTS=-p no:x", "PYTHONHASHSEED=0", "HOME=", "VXA= b ", "VXD='q'", "vxa=2", "DEBUG=\"1\"", "LANG=C"]).to_string()).collect();
    let toml: Vec<&str> = dirs.iter().filter(|x| root.join(x).join("pyproject.toml").exists()).cloned().collect();
    let input = format!("mode={} workers={} subprojects={} started={} pyproject.toml in {:?} env={} tests={}", mode, n, sub, started, toml, qs(&envs), qs(&tests));
    r.case(&input, nt >= 2);
    let p = if started { prog.to_string_lossy().into_owned() } else { "/nonexistent/prog".to_string() };
    std::fs::write(d.join("case"), [p, mode.to_string(), if sub { "1".into() } else { "0".to_string() }, tests.join("\x01"), envs.join("\x01"), format!("{} {} {}", nt, envs.len(), n)].join("\0")).unwrap();
    let o = Command::new(std::env::current_exe().unwrap()).args(["child-run", "0", "quick"]).env("VX_DIR", &d).output().unwrap();
    let status = status_of(&o.stdout); let ls = logs(&d); std::fs::remove_dir_all(&d).unwrap();
    let Some(status) = status else { r.fail("panic", input, format!("execute_tests_parallel did not return: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())); return };
    let valid = mode != "each";
    let fine = valid && (nt == 0 || started) && tests.iter().all(|t| !t.contains("KILL") && !(t.contains("EXIT") && !t.contains("EXIT0_")));
    // with several failing tests in one batch the last one decides: only a batch that ends with EXIT0_ after a failing test could be fine
    let any_fail = ls.iter().any(|l| code_of(&l.args).map(|c| c != 0).unwrap_or(true));
    let fine = if started && valid { !any_fail } else { fine };
    let sh = || format!("processes: {}", ls.iter().map(|l| format!("(cwd={} args={})", l.cwd.replace(&*d.to_string_lossy(), "DIR"), qs(&l.args).replace(&*d.to_string_lossy(), "DIR"))).collect::<String>());
    if r.prop == "C04" {
        if (status == 0) != fine { r.fail("status", input.clone(), format!("exit status {}, expected {}; {}", status, if fine { "0" } else { "non-zero" }, sh())); }
        if valid && started {
            let key = |dir: &Path, id: &str| { let (f, rest) = id.split_at(id.find("::").unwrap_or(id.len())); (dir.join(f), rest.to_string()) };
            let mut got: Vec<(PathBuf, String)> = vec![];
            for l in &ls { let mut after = false; let mut c = 0; for a in &l.args[2.min(l.args.len())..] { if a == "--rootdir" { after = true; } else if after { after = false; } else { got.push(key(Path::new(&l.cwd), a)); c += 1; } } if c == 0 { r.fail("empty", input.clone(), format!("a worker without tests; {}", sh())); } }
            let mut want: Vec<(PathBuf, String)> = tests.iter().map(|t| key(&root, t)).collect();
            got.sort(); want.sort();
            if got != want { r.fail("tests", input.clone(), format!("the tests handed out are not the collected ones; {}", sh())); }
        }
    } else if valid && started {
        let mut we: HashMap<&str, &str> = HashMap::new(); for e in &envs { if let Some((k, v)) = e.split_once('=') { we.insert(k, v); } }
        for l in &ls { for (k, v) in &we { if l.env.get(*k).map(|x| x.as_str()) != Some(*v) { r.fail("env", input.clone(), format!("{} is {:?} in a test process, expected {:?}", k, l.env.get(*k), v)); } }
            for k in ["VXA", "VXB", "VX_C", "BAD"] { if !we.contains_key(k) && l.env.contains_key(k) { r.fail("env", input.clone(), format!("{} is set in a test process", k)); } } }
    }
}
fn pairs(r: &mut Report, g: &mut Rng) {
    let pool = ["A=1", "A=", "=x", "=", "NOEQ", "", "A=b=c", "A==", "B=x y", "é=ü", " A = 1 ", "C=\n", "A", "a=1,b=2", "A:B=1"];
    let v: Vec<String> = (0..g.below(6)).map(|_| g.pick(&pool).to_string()).collect();
    let input = format!("options {}", qs(&v)); r.case(&input, v.len() >= 2);
    let want: Vec<(String, String)> = v.iter().filter_map(|s| s.find('=').map(|i| (s[..i].to_string(), s[i + 1..].to_string()))).collect();
    let v2 = v.clone();
    match std::panic::catch_unwind(move || super::PytestRunner::new(v2).env_vars) { Err(_) => r.fail("panic", input, "panicked".into()), Ok(got) => if got != want { r.fail("pairs", input, format!("assignments {:?} expected {:?}", got, want)); } }
}
pub fn probe(prop: &str, seed: u64, thorough: bool) -> Report {
    if prop == "child-exec" { child_exec(); }
    if prop == "child-run" { child_run(); }
    for v in ["VXA", "VXB", "VX_C", "BAD"] { std::env::remove_var(v); }
    let mut g = Rng::new(seed);
    let n = match (prop, thorough) { ("C05", false) => 150, ("C05", true) => 1500, (_, false) => 250, (_, true) => 2500 };
    let mut r = Report::new(prop, n as u64);
    for k in 0..n {
        match prop { "C05" => { pool(&mut r, &mut g, k); executor(&mut r, &mut g, k); } "C04" => parallel(&mut r, &mut g, k), _ => { for _ in 0..20 { pairs(&mut r, &mut g); } if k % 2 == 0 { parallel(&mut r, &mut g, k); } else { let before = r.fails.len(); executor(&mut r, &mut g, k); let t = r.fails.len(); if t > before { r.fails.retain(|f| f.0 != "status"); } } } }
        if r.fails.len() >= 5 { break; }
    }
    r
}
