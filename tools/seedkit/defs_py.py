MK, RN, RA = "python/rtest/mark.py", "python/rtest/worker/runner.py", "python/rtest/raises.py"
MARK = "import importlib, sys, rtest\nimportlib.import_module('rtest.mark')\nM = sys.modules['rtest.mark']\n"
DISC = """import sys, types, tempfile, json, os
from pathlib import Path
import rtest
from rtest.worker import runner as R
def mod(src):
    m = types.ModuleType('demo_mod')
    exec(src, m.__dict__)
    return m
def found(src, pc=("Test*",), pf=("test*",)):
    return R._discover_tests_in_module(mod(src), Path("/p/t.py"), Path("/p"), list(pc), list(pf))
"""
RUN = """import sys, tempfile, json, os, shutil
from pathlib import Path
import rtest
from rtest.worker import runner as R
def run(files, order=None, **kw):
    d = Path(tempfile.mkdtemp())
    try:
        for n, s in files.items():
            (d / n).parent.mkdir(parents=True, exist_ok=True)
            (d / n).write_text(s)
        rc = R.run_tests(d, d / "out.jsonl", [d / n for n in (order or files)], **kw)
        return rc, [json.loads(l) for l in (d / "out.jsonl").read_text().splitlines()]
    finally:
        shutil.rmtree(d)
"""
def py(id, prop, file, edits, demo, needs, breaks): seed(id, prop, file, edits, demo, needs, breaks, kind="py")

py("c15-extra-values-dropped", "C15", MK, [("            if len(value) != num_args:", "            if len(value) < num_args:")], MARK + """
@rtest.mark.cases("a,b", [(1, 2), (3, 4)])
def t(a, b): pass
assert [c.kwargs for c in M.expand_parametrize(t)] == [{"a": 1, "b": 2}, {"a": 3, "b": 4}]
@rtest.mark.cases("a,b", [(1, 2, 3)])
def u(a, b): pass
try: M.expand_parametrize(u)
except ValueError: pass
else: raise SystemExit("an entry with three values for two names was accepted")
""", "a multi-name entry with more values than names", "the entry is mis-bound instead of rejected")
py("c15-same-id-combination-lost", "C15", MK, [("""        result.append(ExpandedCase("-".join(tokens), merged_kwargs))
""", """        case_id = "-".join(tokens)
        if all(case.case_id != case_id for case in result):
            result.append(ExpandedCase(case_id, merged_kwargs))
""")], MARK + """
@rtest.mark.cases("x", ["a", "b"])
@rtest.mark.cases("y", [1, 2])
def t(x, y): pass
assert len(M.expand_parametrize(t)) == 4
@rtest.mark.cases("x", ["b", "b-c"])
@rtest.mark.cases("y", ["a", "a-b"])
def u(x, y): pass
e = [(c.kwargs["x"], c.kwargs["y"]) for c in M.expand_parametrize(u)]
assert sorted(e) == sorted((x, y) for x in ["b", "b-c"] for y in ["a", "a-b"]) or e == [], e
@rtest.mark.cases("x", ["c", "b-c"])
@rtest.mark.cases("y", ["a-b", "a"])
def v(x, y): pass
assert len(M.expand_parametrize(v)) == 4, M.expand_parametrize(v)
""", "stacked decorators whose joined ids collide (a + b-c and a-b + c)", "one of the combinations is never run")
py("c15-shared-arguments", "C15", MK, [("""    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = {}
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
""", """    for combo in itertools.product(*expanded_specs):
        tokens: list[str] = []
        merged_kwargs: dict[str, object] = combo[0].kwargs
        for case in combo:
            tokens.append(case.case_id)
            merged_kwargs.update(case.kwargs)
""")], MARK + """
@rtest.mark.cases("x", [1, 2])
def t(x): pass
assert [c.kwargs for c in M.expand_parametrize(t)] == [{"x": 1}, {"x": 2}]
@rtest.mark.cases("x", [1, 2])
@rtest.mark.cases("y", [3, 4])
def u(x, y): pass
assert [c.kwargs for c in M.expand_parametrize(u)] == [{"y": y, "x": x} for y in (3, 4) for x in (1, 2)], M.expand_parametrize(u)
""", "at least two stacked decorators", "the combinations share one argument dict, so every case gets the last values")
py("c16-empty-explicit-id", "C16", MK, [("        if spec.ids is not None and i < len(spec.ids):", "        if spec.ids is not None and i < len(spec.ids) and spec.ids[i]:")], MARK + """
@rtest.mark.cases("x", [1, 2], ids=["a", "b"])
def t(x): pass
assert [c.case_id for c in M.expand_parametrize(t)] == ["a", "b"]
@rtest.mark.cases("x", [1, 2], ids=["", "b"])
def u(x): pass
assert [c.case_id for c in M.expand_parametrize(u)] == ["", "b"], M.expand_parametrize(u)
""", "an explicit id that is the empty text", "the explicit id is replaced by the value's text")
py("c16-long-text-cut", "C16", MK, [("    if isinstance(value, str):\n        return value\n", "    if isinstance(value, str):\n        return value if len(value) <= 64 else value[:61] + \"...\"\n")], MARK + """
@rtest.mark.cases("x", ["short", "y" * 64])
def t(x): pass
assert [c.case_id for c in M.expand_parametrize(t)] == ["short", "y" * 64]
@rtest.mark.cases("x", ["z" * 80])
def u(x): pass
assert [c.case_id for c in M.expand_parametrize(u)] == ["z" * 80]
""", "a text value longer than 64 characters", "its id is not its text")
py("c17-first-line-only", "C17", RA, [("            value_str = str(exc_val)\n", "            value_str = str(exc_val).partition(\"\\n\")[0]\n")], """import rtest
with rtest.raises(ValueError, match="bad"):
    raise ValueError("bad value")
with rtest.raises(ValueError, match="line two"):
    raise ValueError("line one\\nline two")
""", "a message of several lines", "the pattern is matched against the first line only")
py("c17-tuple-exact-type", "C17", RA, [("        if not issubclass(exc_type, self.expected_exception):\n", "        expected_types = self.expected_exception\n        if exc_type not in expected_types if isinstance(expected_types, tuple) else not issubclass(exc_type, expected_types):\n")], """import rtest
with rtest.raises((KeyError, ValueError)): raise ValueError
with rtest.raises(LookupError): raise KeyError
with rtest.raises((LookupError, ValueError)): raise KeyError
""", "a tuple of expected types and an exception of a subclass of one of them", "the expected exception escapes")
py("c17-keyerror-text", "C17", RA, [("            value_str = str(exc_val)\n", "            value_str = str(exc_val.args[0]) if exc_val is not None and exc_val.args else str(exc_val)\n")], """import rtest
with rtest.raises(ValueError, match="^bad$"):
    raise ValueError("bad")
with rtest.raises(OSError, match=r"\\[Errno 2\\] gone"):
    raise OSError(2, "gone")
""", "an exception whose text is not its first argument (OSError, several arguments)", "the pattern is matched against something else than the exception's text")
py("c18-teardown-needs-setup", "C18", RN, [("                    if teardown is not None:\n", "                    if setup is not None and teardown is not None:\n")], RUN + """
rc, res = run({"t.py": "class TestA:\\n    def setup_method(self): pass\\n    def teardown_method(self): raise ValueError('t')\\n    def test_a(self): pass\\n"})
assert [r["outcome"] for r in res] == ["error"]
rc, res = run({"t.py": "class TestA:\\n    def teardown_method(self): raise ValueError('t')\\n    def test_a(self): pass\\n"})
assert [r["outcome"] for r in res] == ["error"], res
""", "a class with a teardown and no setup", "the teardown is not run and its failure is not reported")
py("c18-teardown-only-after-pass", "C18", RN, [("""                    bound_method(**test_case.kwargs)
                finally:
""", """                    bound_method(**test_case.kwargs)
                except (AssertionError, Exception):
                    raise
                else:
""")], RUN + """
log = Path(tempfile.mkdtemp())
def go(body, left):
    f = log / "ran"
    if f.exists(): f.unlink()
    rc, res = run({"t.py": f"class TestA:\\n    def teardown_method(self): open({str(f)!r}, 'w').close()\\n    def test_a(self): {body}\\n"})
    assert f.exists(), f"no teardown after {body}: {res}"
try:
    go("pass", 0)
    go("assert False", 0)
finally:
    shutil.rmtree(log)
""", "a test body that raises, in a class with a teardown", "the teardown does not run")
py("c18-instance-reused", "C18", RN, [("                instance: object = test_case.test_class()\n", "                instance: object = test_case.test_class.__dict__.get(\"__rtest_instance__\") or test_case.test_class()\n                setattr(test_case.test_class, \"__rtest_instance__\", instance)\n")], RUN + """
rc, res = run({"t.py": "class TestA:\\n    n = 0\\n    def test_a(self):\\n        self.n += 1\\n        assert self.n == 1\\n"})
assert rc == 0, res
rc, res = run({"t.py": "class TestA:\\n    n = 0\\n    def test_a(self):\\n        self.n += 1\\n        assert self.n == 1\\n    def test_b(self):\\n        self.n += 1\\n        assert self.n == 1\\n"})
assert rc == 0, res
""", "two tests of one class, the first of which changes its instance", "the second test runs on the first one's instance")
py("c19-path-per-file", "C19", RN, [("""    test_dirs = {str(f.parent.resolve()) for f in test_files}
    for test_dir in sorted(test_dirs):
        if test_dir not in sys.path:
            sys.path.insert(0, test_dir)
""", ""), ("""    for file_path in test_files:
        try:
            module: ModuleType = _import""", """    for file_path in test_files:
        test_dir = str(file_path.parent.resolve())
        if test_dir not in sys.path:
            sys.path.insert(0, test_dir)

        try:
            module: ModuleType = _import""")], RUN + """
rc, res = run({"a/test_a.py": "import c19_here_helper\\ndef test_a(): pass\\n", "a/c19_here_helper.py": ""}, order=["a/test_a.py"])
assert rc == 0, res
rc, res = run({"a/test_a.py": "import c19_demo_helper\\ndef test_a(): pass\\n", "b/test_b.py": "def test_b(): pass\\n", "b/c19_demo_helper.py": ""}, order=["a/test_a.py", "b/test_b.py"])
assert rc == 0, [r["error"] for r in res]
""", "a test file that imports a helper lying beside a later test file", "the directory of the later file is not on the import path yet")
py("c19-report-by-nodeid", "C19", RN, [("    all_test_cases.sort(key=lambda tc: tc.nodeid)\n", "    all_test_cases = [tc for _, tc in sorted({tc.nodeid: tc for tc in all_test_cases}.items())]\n")], RUN + """
rc, res = run({"t.py": "def test_b(): pass\\ndef test_a(): pass\\n"})
assert [r["nodeid"] for r in res] == ["t.py::test_a", "t.py::test_b"]
src = "import rtest\\n@rtest.mark.cases('x', [1, 2], ids=['', ''])\\ndef test_a(x): pass\\n"
rc, res = run({"t.py": "def test_a(): pass\\nglobals()['test_a[1]'] = test_a\\nglobals()['test_a\\\\x5b1]'] = test_a\\nimport rtest\\n@rtest.mark.cases('x', [1])\\ndef test_a(x): pass\\n"})
assert len(res) == 2, res
""", "two test cases with the same node id", "only one of them is run and reported")
py("c20-method-from-base", "C20", RN, [("                    method_obj: object = getattr(class_obj, method_name)\n", "                    method_obj: object = base_class.__dict__[method_name]\n")], DISC + """
assert [t.nodeid for t in found("class Base:\\n    def test_a(self): pass\\nclass TestT(Base):\\n    def test_b(self): pass\\n")] == ["t.py::TestT::test_b", "t.py::TestT::test_a"]
got = [t.nodeid for t in found("class Base:\\n    def test_a(self): pass\\nclass TestT(Base):\\n    test_a = None\\n    def test_b(self): pass\\n")]
assert got == ["t.py::TestT::test_b"], got
""", "a subclass that switches an inherited test off (test_a = None)", "the test is discovered although the class has no such method")
py("c20-own-empty-reason", "C20", RN, [("                    skip_reason = method_skip_reason if method_skip else class_skip_reason\n", "                    skip_reason = method_skip_reason or class_skip_reason\n")], DISC + """
t = found("import rtest\\n@rtest.mark.skip('class')\\nclass TestT:\\n    @rtest.mark.skip('own')\\n    def test_a(self): pass\\n    def test_b(self): pass\\n")
assert [x.skip_reason for x in t] == ["own", "class"]
t = found("import rtest\\n@rtest.mark.skip('class')\\nclass TestT:\\n    @rtest.mark.skip('')\\n    def test_a(self): pass\\n")
assert [x.skip_reason for x in t] == [""], t[0].skip_reason
""", "a test skipped without a reason in a class skipped with one", "the class's reason is reported for a test that has its own mark")
py("c20-class-function-clash", "C20", RN, [("        elif _is_test_class(name, obj, python_classes):\n", "        elif not any(fnmatch.fnmatch(name, p) for p in python_functions) and _is_test_class(name, obj, python_classes):\n")], DISC + """
assert len(found("class TestT:\\n    def test_b(self): pass\\n")) == 1
assert len(found("class TestT:\\n    def test_b(self): pass\\n", pf=("[tT]est*",))) == 1
""", "a class whose name also matches a function pattern", "its tests are not discovered")
py("c23-star-stripped", "C23", RN, [("""    if not inspect.isclass(obj):
        return False
    return any(fnmatch.fnmatch(name, p) for p in patterns)
""", """    if not inspect.isclass(obj):
        return False
    return any(name.startswith(p.rstrip("*")) if p.endswith("*") else fnmatch.fnmatch(name, p) for p in patterns)
""")], DISC + """
assert R._is_test_class("TestA", int, ["Test*"]) and R._is_test_class("ATest", int, ["*Test"]) and not R._is_test_class("A", int, ["Test*"])
assert R._is_test_class("MyTestA", int, ["*Test*"])
""", "a class pattern with a wildcard before its final one", "matching names are not selected")
