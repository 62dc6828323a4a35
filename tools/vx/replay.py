"""Executable contracts: a crate derived from /repo's current sources (copied modules + an appended probe module)."""
import json, os, re, shutil, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# family -> (modules of /repo/src to copy {file: module path}, crates needed, module that gets the probe)
FAMILIES = {
    "scheduler": (["scheduler"], [], "scheduler"),
    "subproject": (["subproject"], [], "subproject"),
    "run": (["worker", "pytest_executor", "runner", "scheduler", "subproject"], ["log"], "runner"),
    "cli": (["cli", "utils", "scheduler"], ["clap", "num_cpus"], "cli"),
    "config": (["config"], ["toml", "log"], "config"),
    # the whole crate, with stand-ins (replay/stubs) for the crates of the missing parser submodule
    "static": (None, [], "python_discovery::discovery"),
    "imports": (None, [], "python_discovery::discovery"),
    "pattern": (None, [], "python_discovery::discovery"),
    "collect": (None, [], "python_discovery::discovery"),
    "inherit": (None, [], "python_discovery::discovery"),
    "main": (None, [], "pyo3"),
    "native": (["native_runner", "collection::utils"], ["serde", "serde_json", "tempfile", "walkdir", "glob", "log"], "native_runner"),
}
DEPS = {"clap": 'clap = { version = "4.5.4", features = ["derive"] }', "glob": 'glob = "0.3"', "log": 'log = "0.4"', "num_cpus": 'num_cpus = "1.0"',
        "serde": 'serde = { version = "1.0", features = ["derive"] }', "serde_json": 'serde_json = "1.0"', "tempfile": 'tempfile = "3.0"',
        "toml": 'toml = "0.8"', "walkdir": 'walkdir = "2.5"'}


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)


def compilable(repo):
    """modules of the crate that need neither ruff nor pyo3 (transitively), as module paths"""
    src = os.path.join(repo, "src")
    mods = {}
    for root, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".rs") and f not in ("lib.rs", "main.rs", "mod.rs"):
                rel = os.path.relpath(os.path.join(root, f), src)[:-3]
                mods[rel.replace("/", "::")] = open(os.path.join(root, f)).read()
    bad = {m for m, t in mods.items() if re.search(r"\bruff_\w+::|\bpyo3::", t)}
    known_bad = {"collection_integration", "collection::nodes"}
    while True:
        new = {m for m, t in mods.items() if m not in bad and (m in known_bad or any(re.search(r"\b(crate|super)::%s\b" % re.escape(b), t) or
               ("::" in b and "::" in m and b.split("::")[0] == m.split("::")[0] and re.search(r"\bsuper::%s\b" % re.escape(b.split("::")[-1]), t)) for b in bad))}
        if not new:
            break
        bad |= new
    return sorted(m for m in mods if m not in bad)


def root_uses(repo, mods):
    """the `pub use` lines of lib.rs that concern these modules"""
    out = []
    t = open(os.path.join(repo, "src", "lib.rs")).read()
    for m in re.finditer(r"^pub use ((?:\w+::)+)([^;]*);", t, re.M | re.S):
        path = m.group(1).rstrip(":")
        path = path[7:] if path.startswith("crate::") else path
        if path in mods:
            out.append(m.group(0))
    return out


def build(family, repo=None):
    """Builds the probe binary; returns (path, None) or (None, reason)."""
    repo = repo or REPO
    if FAMILIES[family][0] is None:
        return build_whole(family, repo)
    b, why = build_with(family, repo, FAMILIES[family][0], FAMILIES[family][1])
    if b is None:      # the modules may use others now: all that can be compiled here
        allm = compilable(repo)
        if FAMILIES[family][2] in allm:
            b, why2 = build_with(family, repo, allm, list(DEPS))
            why = why if b is None else None
    return b, why


def build_whole(family, repo):
    host = FAMILIES[family][2]
    d = os.path.join(BUILD, "replay_" + family)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(d, "src"), ignore=lambda p, fs: [f for f in fs if os.path.join(p, f) in (os.path.join(repo, "src", "main.rs"), os.path.join(repo, "src", "pyo3.rs")) and f != host + ".rs"])
    src = os.path.join(d, "src")
    hp, mod = host.rsplit("::", 1) if "::" in host else ("crate::" + host, None)
    with open(os.path.join(src, host.replace("::", "/") + ".rs"), "a") as f:
        f.write(f'\n#[path = "{VERIF}/replay/probes/{family}.rs"]\npub mod vx_probe;\n')
    if mod:
        with open(os.path.join(src, hp.replace("::", "/"), "mod.rs"), "a") as f:
            f.write(f"\npub use self::{mod}::vx_probe;\n")
    lib = open(os.path.join(src, "lib.rs")).read()
    os.remove(os.path.join(src, "lib.rs"))
    lib = re.sub(r'#\[cfg\(feature = "extension-module"\)\]\s*\n' + (r"[^\n]*\n" if mod else ""), "", re.sub(r"^\s*//!.*$", "", lib, flags=re.M))
    write(os.path.join(src, "main.rs"), "#![allow(dead_code, unused, clippy::all)]\n" + f'#[path = "{VERIF}/replay/common.rs"]\npub mod common;\n' + lib +
          f'\nfn main() {{ let a: Vec<String> = std::env::args().collect(); let r = {hp}::vx_probe::probe(&a[1], a[2].parse().unwrap(), a[3] == "thorough"); r.print(); }}\n')
    deps = re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", open(os.path.join(repo, "Cargo.toml")).read(), re.M | re.S).group(1)
    deps = "\n".join(re.sub(r'path = "ruff/crates/', f'path = "{VERIF}/replay/stubs/', l) for l in deps.split("\n") if not l.startswith("pyo3"))
    if not mod:
        deps += f'\npyo3 = {{ path = "{VERIF}/replay/stubs/pyo3" }}\n'
    write(os.path.join(d, "Cargo.toml"), f'[package]\nname = "replay_{family}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n{deps}\n[profile.dev]\nopt-level = 1\ndebug = 0\n[workspace]\n')
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return cargo(family, d)


def build_with(family, repo, mods, deps):
    host = FAMILIES[family][2]
    d = os.path.join(BUILD, "replay_" + family)
    shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "src")
    tree = {}
    for m in mods:
        f = os.path.join(repo, "src", m.replace("::", "/") + ".rs")
        if not os.path.exists(f):
            return None, f"missing source {f}"
        t = open(f).read()
        if m == host:
            t += f'\n#[path = "{VERIF}/replay/probes/{family}.rs"]\npub mod vx_probe;\n'
        write(os.path.join(src, m.replace("::", "/") + ".rs"), t)
        tree.setdefault(m.split("::")[0], []).append(m)
    top = []
    for a, ms in tree.items():
        if any("::" in m for m in ms):
            top.append(f"pub mod {a} {{ " + ("pub use self::utils::glob_match; " if "collection::utils" in ms else "") + " ".join(f"pub mod {m.split('::')[1]};" for m in ms if "::" in m) + " }")
        else:
            top.append(f"pub mod {a};")
    top += root_uses(repo, mods)
    main = ("#![allow(dead_code, unused, clippy::all)]\n" + f'#[path = "{VERIF}/replay/common.rs"]\npub mod common;\n' + "\n".join(top) +
            '\nfn main() { let a: Vec<String> = std::env::args().collect(); let r = ' + host + '::vx_probe::probe(&a[1], a[2].parse().unwrap(), a[3] == "thorough"); r.print(); }\n')
    write(os.path.join(src, "main.rs"), main)
    write(os.path.join(d, "Cargo.toml"), f'[package]\nname = "replay_{family}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n' +
          "\n".join(DEPS[x] for x in deps) + "\n[profile.dev]\nopt-level = 1\ndebug = 0\n[workspace]\n")
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and deps:
        shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return cargo(family, d)


def cargo(family, d):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target_replay"), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return None, "probe does not compile against the current source: " + r.stderr[-1500:]
    return os.path.join(BUILD, "target_replay", "debug", "replay_" + family), None


def run(family, prop, seed, tier, timeout=600):
    """{'ok':bool|None, 'fails':[...], 'evals':n, 'distinct':n, 'samples':[...]}; ok None = could not run"""
    b, why = build(family)
    if b is None:
        return {"ok": None, "why": why, "fails": []}
    scratch = os.path.join(BUILD, "scratch_" + family)
    os.makedirs(scratch, exist_ok=True)
    cmd = [b, prop, str(seed), tier]
    env = dict(os.environ)
    if FAMILIES[family][0] is None:
        pkg = os.path.join(BUILD, "pkg_" + family)
        shutil.rmtree(pkg, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "python", "rtest"), os.path.join(pkg, "rtest"), ignore=shutil.ignore_patterns("__pycache__"))
        env.update(VX_PYTHON=PYTHON if os.path.exists(PYTHON) else "python3", PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=scratch, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        return {"ok": None, "why": "probe timed out", "fails": []}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return parse(r, cmd)


def parse(r, cmd):
    out = {"fails": [], "cmd": " ".join(cmd)}
    for l in r.stdout.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "fail" in d:
                out["fails"].append(d)
            else:
                out.update(d)
    if "evals" not in out:
        out["ok"] = None
        out["why"] = f"probe ended with status {r.returncode}: {r.stderr[-500:]}"
        if r.returncode < 0 or r.returncode == 101:
            out["crash"] = True
        return out
    out["ok"] = not out["fails"]
    return out


PYFAMILIES = ["pymark", "pyraises", "pyrun", "pyrep", "pydisc"]
PYTHON = "/opt/vp/venv/bin/python"


def run_py(family, prop, seed, tier, timeout=600):
    """a probe in Python, in a fresh process that imports the package from the tree under test"""
    scratch = os.path.join(BUILD, "scratch_" + family)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    py = os.path.join(VERIF, "replay", "py")
    pkg = os.path.join(scratch, "pkg")      # only the Python files of the tree, no compiled extension needed
    shutil.copytree(os.path.join(REPO, "python", "rtest"), os.path.join(pkg, "rtest"), ignore=shutil.ignore_patterns("__pycache__"))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([pkg, py]), PYTHONDONTWRITEBYTECODE="1", VX_SCRATCH=scratch, PYTHONHASHSEED=str(seed))
    cmd = [PYTHON if os.path.exists(PYTHON) else "python3", os.path.join(py, family + ".py"), prop, str(seed), tier]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=scratch, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return {"ok": None, "why": "probe timed out", "fails": []}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return parse(r, cmd)


def run_family(fam, prop, seed, tier):
    return run_py(fam, prop, seed, tier) if fam in PYFAMILIES else run(fam, prop, seed, tier)
