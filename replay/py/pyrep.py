"""C19: the report of one worker run over a set of files."""
import contextlib, io, itertools, json, os, shutil, subprocess, sys
from pathlib import Path
from common import Report, args
from rtest.worker.runner import run_tests

prop, rng, thorough = args()
R = Report()
BASE = Path(os.environ["VX_SCRATCH"]).resolve() / "rep"
N = itertools.count()

HOWS = ["pass", "fail", "error", "exit", "skip", "cases"]
BODY = {"pass": "    pass", "fail": "    assert False", "error": "    raise ValueError('x')", "exit": "    raise SystemExit(0)", "skip": "    raise ValueError('ran')", "cases": "    assert a != 1"}
WANT = {"pass": ("passed", None), "fail": ("failed", "AssertionError"), "error": ("error", "ValueError"), "exit": ("error", "SystemExit"), "skip": ("skipped", None)}
BROKEN = {"syntax": ("def (", "SyntaxError"), "raise": ("raise RuntimeError('no')", "RuntimeError"), "import": ("import no_such_module_xyz", "ModuleNotFoundError"), "exit": ("import sys; sys.exit(0)", "SystemExit"),
          "assert": ("assert 0", "AssertionError"), "base": ("class B(BaseException): pass\nraise B()", "B"), "missing": (None, "FileNotFoundError"),
          "late": ("import rtest\ndef test_z(): pass\nraise KeyError('x')", "KeyError")}


def src(tests, extra=""):
    out = ["import rtest", extra]
    for name, how in tests:
        if how == "skip": out.append("@rtest.mark.skip(reason='why')")
        if how == "cases": out.append("@rtest.mark.cases('a', [0, 1, 2])")
        out.append(f"def {name}({'a' if how == 'cases' else ''}):\n{BODY[how]}")
    return "\n".join(out) + "\n"


def rows_of(rel, tests):
    rows = []
    for name, how in tests:
        if how == "cases": rows += [(f"{rel}::{name}[{k}]", "failed" if k == 1 else "passed", "AssertionError" if k == 1 else None) for k in range(3)]
        else: rows.append((f"{rel}::{name}",) + WANT[how])
    return rows


def project(files, how="call", outside=False):
    """files: list of (relative path, list of tests | name of a broken kind)"""
    root = BASE / f"p{next(N)}"
    root.mkdir(parents=True)
    arg_root = root / "sub" if outside else root
    arg_root.mkdir(exist_ok=True)
    paths, errs, oks = [], [], []
    helper = {}
    for d in [arg_root] + [(root / rel).parent for rel, _ in files]:     # every file may import what lies beside any of them
        d.mkdir(parents=True, exist_ok=True)
        if d not in helper:
            helper[d] = f"helper_{next(N)}"
            (d / (helper[d] + ".py")).write_text(f"NAME = {helper[d]!r}\n")
    imports = "\n".join(f"import {h}" for h in helper.values())
    for i, (rel, what) in enumerate(files):
        p = root / rel
        shown = str(p.relative_to(arg_root)) if p.is_relative_to(arg_root) else str(p)
        if isinstance(what, str):
            text, cls = BROKEN[what]
            if text is not None: p.write_text(text + "\n")
            errs.append((shown + "::IMPORT_ERROR", "error", cls))
        else:
            p.write_text(src(what, imports))
            oks += rows_of(shown, what)
        paths.append(p)
    desc = f"files {[(r, w) for r, w in files]!r}{' (root below them)' if outside else ''} via {how}"
    R.case(repr((files, how, outside)), desc)
    want = errs + sorted(oks)
    out = root / "out" / "deep" / "r.jsonl"
    if how != "call":
        r = subprocess.run([sys.executable, "-m", "rtest.worker", "--root", str(arg_root), "--out", str(out)] + (["--python-functions", "test*", "--python-classes", "Test*"] if how == "cli-patterns" else []) + (["--"] if how == "cli-patterns" else []) + [str(p) for p in paths], capture_output=True, text=True, cwd=str(root))
        code = r.returncode
        note = r.stderr[-300:]
    else:
        keep, mods = list(sys.path), set(sys.modules)
        o = sys.stdout
        note = ""
        try:
            code = run_tests(arg_root, out, paths)
        except BaseException as x:
            code, note = None, repr(x)
        sys.path[:] = keep
        for m in set(sys.modules) - mods:
            if m.startswith(("_rtest_module_", "helper_")): del sys.modules[m]
    exp = 1 if any(r[1] in ("failed", "error") for r in want) else 0
    if code != exp: R.fail("exit", desc, f"exit code {code}, expected {exp} {note}")
    try:
        lines = out.read_text().split("\n")
    except OSError as x:
        R.fail("no-report", desc, f"{x!r} {note}")
        shutil.rmtree(root, ignore_errors=True)
        return
    if lines[-1] != "": R.fail("format", desc, f"the report does not end with a newline: {lines[-1]!r}")
    try:
        got = [json.loads(l) for l in lines[:-1]]
        rows = [(g["nodeid"], g["outcome"], g["error_type"]) for g in got]
    except Exception as x:
        R.fail("format", desc, f"{x!r} in {lines!r}")
        shutil.rmtree(root, ignore_errors=True)
        return
    if rows != want:
        R.fail("rows" if sorted(map(str, rows)) != sorted(map(str, want)) else "order", desc, f"report {rows}\nexpected {want}")
    for g in got:
        if g["outcome"] == "error" and not g["error"]: R.fail("error-info", desc, f"{g}")
    shutil.rmtree(root, ignore_errors=True)


def tests(n):
    return [(f"test_{rng.choice('abcxyz')}{i}", rng.choice(HOWS)) for i in range(n)]


project([])
project([("test_a.py", [])])
for how in HOWS: project([("test_a.py", [("test_one", how)])])
for b in BROKEN:
    project([("test_a.py", b)])
    project([("test_a.py", b), ("test_b.py", [("test_b", "pass")])])
    project([("test_b.py", [("test_b", "pass")]), ("sub/test_a.py", b)])
    project([("sub/x/test_z.py", b), ("test_b.py", [("test_b", "skip")]), ("a/test_z.py", b)])
for a, b in itertools.product(HOWS, HOWS): project([("t/test_b.py", [("test_2", a), ("test_1", b)]), ("t/test_a.py", [("test_3", b)])])
project([("z/test_x.py", [("test_b", "pass"), ("test_a", "fail")]), ("a/test_x.py", [("test_b", "error"), ("test_a", "pass")])], outside=False)
project([("z/test_x.py", [("test_b", "pass")]), ("sub/a/test_x.py", "raise"), ("z/test_y.py", "raise")], outside=True)
project([("test_a.py", [("test_one", "pass")]), ("b/test_a.py", "exit")], how="cli")
for how in HOWS: project([("test_a.py", [("test_one", how), ("test_b", "pass")]), ("test_b.py", [("test_one", "pass")]), ("test_a.py", [("test_one", how), ("test_b", "pass")])])
project([("test_a.py", [("test_one", "pass"), ("test_two", "skip")])], how="cli")
project([("test_a.py", [("test_one", "fail")])], how="cli-patterns")
for _ in range(250 if thorough else 40):
    k = rng.randint(1, 5)
    names = rng.sample(["test_a.py", "test_b.py", "d/test_a.py", "d/test_c.py", "d/e/test_d.py", "f/test_f.py"], k)
    fs = [(n, rng.choice(list(BROKEN)) if rng.random() < .3 else tests(rng.randint(0, 4))) for n in names]
    if rng.random() < .15: fs.insert(rng.randint(0, k), rng.choice(fs))      # the same file given twice: each of its tests is discovered twice
    project(fs, how="cli" if rng.random() < .05 else "call")
R.done()
