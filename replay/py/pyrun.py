"""C18: one test case run by the worker."""
import io, itertools, sys
from common import Report, args
from rtest.worker import runner
from rtest.worker.runner import TestCase, _run_single_test

prop, rng, thorough = args()
R = Report()


class SubAssert(AssertionError): pass
class Base(BaseException): pass
class Both(AssertionError, ValueError): pass
class SubExit(SystemExit): pass
class SubKI(KeyboardInterrupt): pass


EXC = [None, AssertionError, SubAssert, ValueError, SystemExit, Base, Both, SubExit, GeneratorExit, StopIteration, RecursionError, MemoryError, KeyboardInterrupt, SubKI]
FEW = [None, AssertionError, ValueError, SystemExit, KeyboardInterrupt]


def act(log, tag, exc, out, err):
    log.append(tag)
    if out: print(out, end="")
    if err: print(err, end="", file=sys.stderr)
    if exc is not None:
        raise exc(0) if issubclass(exc, SystemExit) else exc("text of " + tag)


def last(*xs):
    r = None
    for x in xs:
        if x is not None: r = x
    return r


def check(what, res, exc, raised, out, err, real_out, real_err, nodeid):
    if real_out or real_err:
        R.fail("leak", what, f"output of the test left its result: {real_out!r} {real_err!r}")
    ki = exc is not None and issubclass(exc, KeyboardInterrupt)
    if ki:
        if not (raised is not None and type(raised) is exc): R.fail("interrupt", what, f"a keyboard interrupt gives {res!r} {raised!r}")
        return
    if raised is not None:
        R.fail("escapes", what, f"{raised!r} leaves the worker's run of one test")
        return
    want = "passed" if exc is None else "failed" if issubclass(exc, AssertionError) else "error"
    if res.outcome != want: R.fail("outcome", what, f"outcome {res.outcome}, expected {want}")
    if res.error_type != (None if exc is None else exc.__name__): R.fail("error_type", what, f"error_type {res.error_type!r}")
    if (res.error is None) != (exc is None): R.fail("error", what, f"error {res.error!r}")
    if exc is not None and exc.__name__ not in str(res.error): R.fail("traceback", what, f"traceback does not name the exception: {res.error!r}")
    if res.stdout != out: R.fail("stdout", what, f"stdout {res.stdout!r}, written {out!r}")
    if res.stderr != err: R.fail("stderr", what, f"stderr {res.stderr!r}, written {err!r}")
    if res.nodeid != nodeid: R.fail("nodeid", what, f"nodeid {res.nodeid!r}")


def run(tc):
    o, e = sys.stdout, sys.stderr
    a, b = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = a, b
    res = raised = None
    try:
        res = _run_single_test(tc)
    except BaseException as x:
        raised = x
    ok = sys.stdout is a and sys.stderr is b
    sys.stdout, sys.stderr = o, e
    if not ok: R.fail("restore", "streams", "the streams are not restored")
    return res, raised, a.getvalue(), b.getvalue()


def function(exc, out, err, kw):
    log, got = [], []
    def test_f(**k):
        got.append(k)
        act(log, "body", exc, out, err)
    what = f"function test raising {exc and exc.__name__}, kwargs {kw!r}, writes {out!r}/{err!r}"
    R.case(("f", exc, out, err, str(kw)), what)
    res, raised, ro, re_ = run(TestCase("m.py::test_f", test_f, dict(kw)))
    if log != ["body"] or got != [kw]: R.fail("call", what, f"body ran {log}, arguments {got}")
    check(what, res, exc, raised, out, err, ro, re_, "m.py::test_f")


def method(init, skind, sexc, bexc, tkind, texc, out, named=True, dyn=False):
    log, insts, got = [], [], []
    def setup(self): insts.append(self); act(log, "setup", sexc, "S" if out else "", "")
    def teardown(self): insts.append(self); act(log, "teardown", texc, "T" if out else "", "t" if out else "")
    class C:
        def __init__(self):
            insts.append(self); act(log, "init", init, "", "")
        def test_m(self, **k):
            insts.append(self); got.append(k)
            if dyn: self.teardown_method = lambda: act(log, "teardown", texc, "T" if out else "", "t" if out else "")
            act(log, "body", bexc, "B" if out else "", "b" if out else "")
    for k in skind: setattr(C, k, setup)
    if not dyn:
        for k in tkind: setattr(C, k, teardown)
    if not skind and out: C.setup_method = None
    what = f"method test: constructor raises {init and init.__name__}, {'/'.join(skind) or 'no set-up'} raises {sexc and sexc.__name__}, body raises {bexc and bexc.__name__}, {'/'.join(tkind) or 'no tear-down'}{' (set by the body)' if dyn else ''} raises {texc and texc.__name__}"
    R.case(("m", init, skind, sexc, bexc, tkind, texc, out, named, dyn), what)
    kw = {"a": 1} if out else {}
    tc = TestCase("m.py::C::test_m", C.test_m, dict(kw), test_class=C, method_name="test_m" if named else None)
    res, raised, ro, re_ = run(tc)
    exp, exc, o, e = ["init"], init, "", ""
    if init is None:
        go = True
        if skind:
            exp.append("setup"); o += "S" if out else ""; exc = sexc; go = sexc is None
        if go:
            exp.append("body"); exc = bexc; o += "B" if out else ""; e += "b" if out else ""
            if tkind or dyn:
                exp.append("teardown"); exc = last(bexc, texc); o += "T" if out else ""; e += "t" if out else ""
    if log != exp: R.fail("steps", what, f"ran {log}, expected {exp}")
    if "body" in exp and got != [kw]: R.fail("arguments", what, f"the body got {got}")
    if any(i is not insts[0] for i in insts): R.fail("instance", what, "set-up, body and tear-down ran on different instances")
    check(what, res, exc, raised, o, e, ro, re_, "m.py::C::test_m")


for exc in EXC:
    for out, err in [("", ""), ("out", ""), ("", "err\n"), ("a\nb", "c")]:
        for kw in [{}, {"x": 1}, {"x": None, "y": [1]}]:
            function(exc, out, err, kw)
KINDS = [(), ("setup_method",), ("setUp",), ("setup_method", "setUp")]
TK = [(), ("teardown_method",), ("tearDown",), ("teardown_method", "tearDown")]
for init in [None, AssertionError, ValueError, KeyboardInterrupt, SystemExit]:
    for sk, tk in itertools.product(KINDS, TK):
        for s, b, t in itertools.product(FEW if sk else [None], FEW, FEW if tk else [None]):
            if init is not None and (b or s or t): continue
            method(init, sk, s, b, tk, t, (len(sk) + len(tk)) % 2 == 0)
for b, t in itertools.product(EXC, EXC):
    method(None, ("setup_method",), None, b, ("teardown_method",), t, True)
    method(None, (), None, b, (), t, False, dyn=True)
    method(None, (), None, b, ("tearDown",), t, True, named=False)
if thorough:
    for i, s, b, t in itertools.product([None, ValueError], EXC, EXC, EXC):
        for o in (False, True): method(i, ("setUp",), s, b, ("tearDown",), t, o)
# a missing method
class Gone:
    def teardown_method(self): LOG.append("teardown")
def gone(self): pass
LOG = []
R.case(("gone",))
res, raised, ro, re_ = run(TestCase("m.py::Gone::test_m", gone, test_class=Gone, method_name="test_m"))
if raised is not None or res.outcome != "error" or res.error_type != "AttributeError" or LOG != ["teardown"]: R.fail("gone", "a method that is not there", f"{res!r} {raised!r} {LOG}")
# skipped
for reason in ["", "why", "a b\n"]:
    for cls in [False, True]:
        log = []
        class K:
            def __init__(self): log.append("init")
            def setup_method(self): log.append("setup")
            def test_m(self): log.append("body")
            def teardown_method(self): log.append("teardown")
        what = f"skipped {'method' if cls else 'function'} test with reason {reason!r}"
        R.case(("skip", reason, cls), what)
        f = lambda: log.append("body")
        res, raised, ro, re_ = run(TestCase("n", K.test_m if cls else f, skip=True, skip_reason=reason, test_class=K if cls else None, method_name="test_m" if cls else None))
        if log: R.fail("skip-runs", what, f"ran {log}")
        if raised is not None or res.outcome != "skipped" or res.error != ({"reason": reason} if reason else None) or res.nodeid != "n": R.fail("skip", what, f"{res!r} {raised!r}")
# a fresh instance and its own output for every case
class Fresh:
    n = 0
    def test_m(self, k):
        assert not hasattr(self, "seen"); self.seen = 1
        print("case", k)
for k in range(5):
    R.case(("fresh", k))
    res, raised, ro, re_ = run(TestCase(f"n{k}", Fresh.test_m, {"k": k}, test_class=Fresh, method_name="test_m"))
    if res is None or res.outcome != "passed" or res.stdout != f"case {k}\n": R.fail("fresh", f"case {k} of a method run five times", f"{res!r}")
R.done()
