"""Writes /verif/seeded/<id>/ from defs_*.py and confirms each change in a scratch copy: it builds, the module tests pass, the demo passes before and fails after."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
S = "/tmp/seedrepo"; T = "/tmp/seedtarget"
SEEDS = {}
DEMO_RS = '#!/bin/bash\n# {what}\nexec python3 "$(dirname "$0")/crate.py"\n'
DEMO_ST = '#!/bin/bash\n# {what}\nexec python3 "$(dirname "$0")/whole.py"\n'
DEMO_PY = '#!/bin/bash\n# {what}\nexport PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n'


def seed(id, prop, file, edits, demo, needs, breaks, kind="rs"):
    SEEDS[id] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind)


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def module_tests():
    """cargo test of the modules that need no ruff, and the Python tests, in the scratch copy"""
    t = "/tmp/seedtest"; os.makedirs(t, exist_ok=True)
    p = open("/opt/vp/harness/prepare.py").read().replace('"/repo", "/opt/vp/harness/rtest"', f'"{S}", "{t}"')
    open(t + "/prepare.py", "w").write(p)
    sh(["python3", t + "/prepare.py"])
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=T + "_t", RUSTC_WRAPPER="", PYTHONPATH=S + "/python", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    r = sh(["cargo", "test", "--offline", "--quiet", "--manifest-path", t + "/Cargo.toml"], env=env)
    if r.returncode:
        return False, r.stdout[-1500:] + r.stderr[-1500:]
    PY = "/opt/vp/venv/bin/python"
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", f"--rootdir={S}", "tests/test_raises.py", "tests/test_skip.py", "tests/test_native_runner.py"] +
           [x for c in ("TestNativeRunnerCLI", "TestPythonFilesConfiguration", "TestPythonClassesConfiguration", "TestPythonFunctionsConfiguration", "TestSysPathBehavior", "TestWorkerExitCode") for x in ("--deselect", f"tests/test_native_runner.py::{c}")], cwd=S, env=env)
    if r.returncode:
        return False, r.stdout[-1500:]
    r = sh([PY, "-m", "rtest.worker", "--root", S, "--out", t + "/w.jsonl", "--python-classes", "TestWorkerExitCode", "--", "tests/test_native_runner.py"], cwd=S, env=env)
    return r.returncode == 0, r.stdout + r.stderr


def main():
    for f in sorted(glob.glob(HERE + "/defs_*.py")):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    want = sys.argv[1:] or list(SEEDS)
    if not os.path.isdir(S + "/.git"):
        sh(["rm", "-rf", S]); sh(["git", "clone", "-q", "/repo", S])
    sh(["git", "-C", S, "fetch", "-q"]); sh(["git", "-C", S, "reset", "-q", "--hard", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    for i in want:
        d = SEEDS[i]; out = os.path.join(VERIF, "seeded", i); os.makedirs(out, exist_ok=True)
        sh(["git", "-C", S, "checkout", "-q", "--", "."])
        files = d["file"] if isinstance(d["file"], list) else [d["file"]] * len(d["edits"])
        okp = True
        for f, (a, b) in zip(files, d["edits"]):
            p = os.path.join(S, f); t = open(p).read()
            if t.count(a) != 1:
                print(f"{i}: edit matches {t.count(a)} times: {a!r}"); okp = False; continue
            open(p, "w").write(t.replace(a, b))
        if not okp:
            continue
        open(out + "/patch.diff", "w").write(sh(["git", "-C", S, "diff"]).stdout)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/demo.sh", "w").write({"rs": DEMO_RS, "st": DEMO_ST, "mn": DEMO_ST, "py": DEMO_PY}[d["kind"]].format(what=d["breaks"].replace("\n", " ")))
        os.chmod(out + "/demo.sh", 0o755)
        if d["kind"] == "rs":
            shutil.copy(HERE + "/crate.py", out)
            open(out + "/demo.rs", "w").write(d["demo"])
        elif d["kind"] in ("st", "mn"):
            shutil.copy(HERE + ("/whole.py" if d["kind"] == "st" else "/whole_main.py"), out + "/whole.py")
            shutil.rmtree(out + "/stubs", ignore_errors=True); shutil.copytree(VERIF + "/replay/stubs", out + "/stubs")
            open(out + "/demo.rs", "w").write(d["demo"])
        else:
            open(out + "/demo.py", "w").write(d["demo"])
        env = dict(os.environ, DEMO_TARGET=T)
        ok, why = module_tests()
        bad = sh(["bash", out + "/demo.sh"], cwd=S, env=env)
        sh(["git", "-C", S, "checkout", "-q", "--", "."])
        good = sh(["bash", out + "/demo.sh"], cwd=S, env=env)
        fine = ok and bad.returncode not in (0, 3) and good.returncode == 0
        print(f"{i}: {'OK' if fine else 'NOT OK'} tests={ok} with={bad.returncode} without={good.returncode}")
        if not fine:
            print(why[-1200:] if not ok else "", (bad.stdout + bad.stderr)[-800:], "\n--without\n", (good.stdout + good.stderr)[-800:])


main()
