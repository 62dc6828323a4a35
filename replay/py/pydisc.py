"""C20: discovery of the tests of a module; C23: the name patterns the worker is given."""
import itertools, types
from collections import Counter
from pathlib import Path
from common import Report, args
import rtest
from rtest.worker.runner import _discover_tests_in_module, _is_skipped, _is_test_class, _is_test_function

prop, rng, thorough = args()
R = Report()


def match(p, n):
    """shell-style matching, from its description"""
    if p == "": return n == ""
    c = p[0]
    if c == "*": return any(match(p[1:], n[k:]) for k in range(len(n) + 1))
    if n == "": return False
    if c == "?": return match(p[1:], n[1:])
    if c == "[":
        j = 1
        if p[j:j + 1] == "!": j += 1
        if p[j:j + 1] == "]": j += 1
        while j < len(p) and p[j] != "]": j += 1
        if j < len(p):
            body = p[1:j]
            neg = body.startswith("!")
            if neg: body = body[1:]
            hit, k = False, 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    hit |= body[k] <= n[0] <= body[k + 2]
                    k += 3
                else:
                    hit |= body[k] == n[0]
                    k += 1
            return hit != neg and match(p[j + 1:], n[1:])
    return c == n[0] and match(p[1:], n[1:])


class M:      # a pytest mark
    def __init__(self, name, *a, **k): self.name, self.args, self.kwargs = name, a, k


WHY = {None: None, "r": "", "r1": "own reason", "p": "", "p1": "pytest reason", "pk": "keyword reason", "pe": "", "other": None, "none": "positional", "ro": "own wins", "two": "first"}


def mark(o, kind):
    if kind is None: return o
    if kind[0] == "r": o.__rtest_skip__, o.__rtest_skip_reason__ = True, {"r": "", "r1": "own reason", "ro": "own wins"}[kind]
    if kind == "ro": o.pytestmark = [M("skip", reason="loses")]
    if kind == "p": o.pytestmark = [M("skip")]
    if kind == "p1": o.pytestmark = [M("slow"), M("skip", "pytest reason")]
    if kind == "pk": o.pytestmark = [M("skip", reason="keyword reason"), M("slow")]
    if kind == "pe": o.pytestmark = [M("skip", reason="")]
    if kind == "none": o.pytestmark = [M("skip", "positional", reason=None)]
    if kind == "two": o.pytestmark = [M("skip", "first"), M("skip", "second")]
    if kind == "other": o.pytestmark = [M("slow"), M("skipif", True)]
    return o


def reason(o):
    """the mark an object shows, or None"""
    ks = [b.__dict__["KIND"] for b in (o.__mro__ if isinstance(o, type) else [o]) if b.__dict__.get("KIND")]
    own = [k for k in ks if k[0] == "r"]
    return WHY[(own + ks + [None])[0]]


def func(kind=None, cases=None):
    def f(*a, **k): pass
    mark(f, kind)
    f.KIND = kind
    for names, vals in reversed(cases or []): rtest.mark.cases(names, vals)(f)
    f.IDS = [""]
    if cases:
        f.IDS = [f"[{'-'.join(map(str, c))}]" for c in itertools.product(*[v for _, v in reversed(cases)])]
    return f


class Dsc:
    def __init__(self, v): self.v = v
    def __get__(self, i, o): return self.v


def cls(name, bases, body, kind=None):
    c = type(name, bases, dict(body))
    if kind is not None:
        mark(c, kind); c.KIND = kind
    return c


def expected(members, rel, pc, pf):
    out = []
    for n, o in members.items():
        if isinstance(o, types.FunctionType):
            if any(match(p, n) for p in pf):
                w = reason(o)
                out += [(f"{rel}::{n}{i}", id(o), w is not None, w or "", None, None) for i in getattr(o, "IDS", [""])]
        elif isinstance(o, type) and any(match(p, n) for p in pc):
            cw = reason(o)
            for m in {m for b in o.__mro__ for m in b.__dict__}:
                if not any(match(p, m) for p in pf): continue
                f = getattr(o, m)
                if not isinstance(f, types.FunctionType): continue
                w = reason(f)
                r = w if w is not None else cw
                out += [(f"{rel}::{n}::{m}{i}", id(f), r is not None, r or "", o, m) for i in getattr(f, "IDS", [""])]
    return Counter(out)


def check(members, what, pc=("Test*",), pf=("test*",), rel="a/test_m.py", outside=False):
    mod = types.ModuleType("m")
    mod.__dict__.update(members)
    desc = f"module {what}, class patterns {pc}, function patterns {pf}"
    R.case(desc + rel + str(outside), desc)
    root = Path("/r/x" if outside else "/r")
    shown = "/r/" + rel if outside else rel
    try:
        got = _discover_tests_in_module(mod, Path("/r") / rel, root, list(pc), list(pf))
    except Exception as x:
        R.fail("raises", desc, repr(x)); return
    have = [(t.nodeid, id(t.func), t.skip, t.skip_reason, t.test_class, t.method_name) for t in got]
    want = expected(members, shown.replace("\\", "/"), pc, pf)
    if Counter(have) != want:
        R.fail("tests", desc, f"missing {[x[0:4:2] + x[3:4] for x in (want - Counter(have))]}, unexpected {[x[0:4:2] + x[3:4] for x in (Counter(have) - want)]}")
    ids = Counter(t.nodeid for t in got)
    if any(v > 1 for v in ids.values()): R.fail("ids", desc, f"ids given twice: {[k for k, v in ids.items() if v > 1]}")


def patterns():
    f, c = func(), cls("C", (), {})
    pats = ["", "*", "test*", "*test", "te?t", "t[ea]st*", "t[!e]st", "[a-c]*", "*_*_*", "Test*", "test_a", "[", "[]", "a[", "**", "?*", "*[0-9]", "[!]x]*"]
    names = ["", "t", "test", "test_", "tast", "Test", "TEST", "test_a", "a_test", "tst", "b1", "c", "d", "x_y_z", "[", "[]", "a[", "a]", "é", "test\n"]
    for p, n in itertools.product(pats, names):
        R.case((p, n), f"{n!r} against {p!r}")
        for fn, o, other in ((_is_test_function, f, c), (_is_test_class, c, f)):
            if fn(n, o, [p]) != match(p, n): R.fail("match", (fn.__name__, n, p), f"{fn.__name__} says {fn(n, o, [p])}, shell-style matching says {match(p, n)}")
            if fn(n, other, [p]): R.fail("kind", (fn.__name__, n, p), "an object of the wrong kind is selected")
    for _ in range(4000 if thorough else 400):
        ps = ["".join(rng.choice("ab_*?[]!-") for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(0, 3))]
        ps = [p for p in ps if "-" not in p and "[" not in p or rng.random() < .2 and "[" not in p]
        n = "".join(rng.choice("ab_") for _ in range(rng.randint(0, 5)))
        want = any(match(p, n) for p in ps)
        R.case((tuple(ps), n))
        if _is_test_function(n, f, ps) != want or _is_test_class(n, c, ps) != want: R.fail("any", (n, ps), f"selected {_is_test_function(n, f, ps)}/{_is_test_class(n, c, ps)}, expected {want}")


KINDS = list(WHY)
patterns()
for k in KINDS:
    o = func(k)
    w = reason(o)
    R.case(("skip", k))
    if _is_skipped(o) != (w is not None, w or ""): R.fail("skip", f"function marked {k}", f"{_is_skipped(o)}, expected {(w is not None, w or '')}")
    check({"test_a": o, "helper": func(k)}, f"one function marked {k}")
for a, b in itertools.product(KINDS, KINDS):
    check({"TestA": cls("TestA", (), {"test_m": func(a), "test_n": func(), "other": func()}, b)}, f"a method marked {a} in a class marked {b}")
    base = cls("Base", (), {"test_m": func(a)}, b)
    check({"TestA": cls("TestA", (base,), {"test_n": func()}), "Base": base}, f"a method marked {a} inherited from a class marked {b}")
    check({"TestA": cls("TestA", (base,), {"test_m": func(b)})}, f"a method marked {b} overriding one marked {a}")
CASES = [("a", [1, 2]), ("b", ["x", "y", "z"])]
for n in range(3):
    check({"test_a": func("r1" if n else None, CASES[:n]), "TestA": cls("TestA", (), {"test_m": func(None, CASES[:n])}, "p")}, f"{n} cases decorators")
f = func()
check({"test_a": f, "test_b": f, "test_c": 3, "test_d": func, "Testing": cls("X", (), {"test_m": f}), "TestA": f, "test_E": cls("E", (), {"test_m": f}), "Test": 5}, "aliases and other values")
check({"TestA": cls("TestA", (), {"test_s": staticmethod(f), "test_c": classmethod(f), "test_p": property(f), "test_v": 4, "test_k": cls("K", (), {}), "test_d": Dsc(f), "test_n": Dsc(None), "test_m": f})}, "static methods, class methods, properties, values")
A = cls("A", (), {"test_a": func(), "test_b": func(), "test_c": func()})
B = cls("B", (A,), {"test_b": func("r1"), "test_d": func()})
C = cls("C", (A,), {"test_b": func(), "test_c": None})
D = cls("TestD", (B, C), {"test_e": func(), "test_d": 5})
check({"TestD": D, "A": A, "B": B, "C": C, "TestA": A}, "a diamond with overrides, a method hidden by a value")
check({"TestD": D, "TestE": cls("TestE", (D,), {}), "TestF": cls("TestF", (C, ), {"test_c": func()})}, "inherited through a diamond")
check({"TestD": D}, "no class pattern", pc=())
check({"TestD": D, "test_x": f}, "no function pattern", pf=())
check({"TestD": D, "test_x": f, "check_y": f}, "several patterns", pf=("test_[a-c]", "check*", "*_e"), pc=("Test*", "TestD", "*"))
check({"TestD": D, "test_x": f}, "outside the root", outside=True)
for pf in (("*",), ("[tT]est*",), ("Test*", "test*")): check({"TestD": D, "test_x": f, "TestC": C, "Testing": f}, "class names that match a function pattern", pf=pf)
check({"test_x": f}, "a backslash in the path", rel="a\\b.py")
for _ in range(2000 if thorough else 150):
    made, members = [], {}
    for i in range(rng.randint(1, 5)):
        bs = []
        for b in rng.sample(made, min(len(made), rng.choice([0, 1, 1, 2]))): bs.append(b)
        body = {m: (func(rng.choice([None, None, None] + KINDS), CASES[:rng.choice([0, 0, 1, 2])]) if rng.random() < .8 else rng.choice([1, None, staticmethod(f), classmethod(f)])) for m in rng.sample(["test_a", "test_b", "test_c", "check", "testx"], rng.randint(0, 4))}
        nm = rng.choice(["Test", "Base", "TestX", "Mixin"]) + str(i)
        try:
            c = cls(nm, tuple(bs), body, rng.choice([None, None, None] + KINDS))
        except TypeError:
            continue
        made.append(c); members[nm] = c
    for i in range(rng.randint(0, 3)): members[rng.choice(["test_f", "tes", "helper", "check"]) + str(i)] = func(rng.choice([None, None] + KINDS), CASES[:rng.choice([0, 0, 1, 2])])
    items = list(members.items()); rng.shuffle(items)
    check(dict(items), f"{[(n, [b.__name__ for b in c.__mro__[1:-1]], sorted(k for k in c.__dict__ if k[0] in 'tc')) if isinstance(c, type) else n for n, c in items]}",
          pc=rng.choice([("Test*",), ("*",), ("Test*", "Mixin*"), ("TestX?",)]), pf=rng.choice([("test*",), ("test_*", "check*"), ("*",), ("[tT]est*",), ("test_a",), ("[MT]*", "te*")]))
R.done()
