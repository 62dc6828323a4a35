"""C15/C16: case decorators and their expansion."""
import itertools
from types import SimpleNamespace
from common import Report, args
import importlib, sys
import rtest
importlib.import_module("rtest.mark")
M = sys.modules["rtest.mark"]

prop, rng, thorough = args()
R = Report()


class Opq:
    def __init__(self, n): self.n = n
    def __repr__(self): return f"Opq<{self.n}>"


class Named: pass


def text(v):
    if isinstance(v, str): return v
    if v is None or isinstance(v, (int, float, bool)): return str(v)
    if isinstance(v, (list, tuple)): return "-".join(text(x) for x in v)
    if hasattr(v, "__name__"): return str(v.__name__)
    return repr(v)


O1, O2 = Opq(1), Opq(2)
SCALARS = [0, 1, -3, True, False, None, "a", "b", "", "y" * 70, "z" * 300, "é\n\t\\", "[x]", "a_1", "a-b", "b_2", 1.5, O1, O2, Named, len, (1, 2), [1, 2], (), ("a",), [("x", 1), "y"], "a", 1, (O1, Named)]
IDS = ["L" * 130, "a b\n[", "a", "a_1", "a_2", "b", "", "a-b", "_1", "x", "a_1_1", "a"]


def is_numbered(got, base):
    pre = base + "_"
    return got.startswith(pre) and got[len(pre):].isdigit() and str(int(got[len(pre):])) == got[len(pre):]


def ids_ok(want, got):
    """why the ids are wrong, or None"""
    if len(want) != len(got): return f"{len(got)} ids for {len(want)} cases"
    if len(set(got)) != len(got): return "two cases have the same id"
    for i, (w, g) in enumerate(zip(want, got)):
        if g != w and not (w in got[:i] and is_numbered(g, w)): return f"id at position {i} is {g!r}, not {w!r} (or a suffixed form of it)"
    return None


def bound(names, v):
    if len(names) == 1: return {names[0]: v}
    if not isinstance(v, (list, tuple)) or len(v) != len(names): return None
    return dict(zip(names, v))


def same_kw(a, b): return list(sorted(a)) == list(sorted(b)) and all(a[k] is b[k] for k in a)


def single_ids(vals, ids): return [ids[i] if ids is not None and i < len(ids) else text(v) for i, v in enumerate(vals)]


def expect(stack):
    """stack: [(names, vals, ids)], decorator applied first first -> list of (combined ids unsuffixed pieces, kwargs) or None when malformed"""
    singles = []
    for names, vals, ids in stack:
        kws = [bound(names, v) for v in vals]
        if any(k is None for k in kws): return None
        singles.append((vals, ids, kws))
    out = []
    for combo in itertools.product(*[range(len(s[0])) for s in singles]):
        kw = {}
        for s, i in zip(singles, combo): kw.update(s[2][i])
        out.append((combo, kw))
    return singles, out


def show(stack): return "decorators (applied first first): " + repr([(n, v, i) for n, v, i in stack])


def alone(names, vals, ids):
    """the ids one decorator gives by itself"""
    def fn(): pass
    rtest.mark.cases(list(names), list(vals), ids=ids)(fn)
    return [g[0] for g in M.expand_parametrize(fn)]


def judge(stack, fn, how):
    exp = expect(stack)
    try:
        got = M.expand_parametrize(fn)
    except ValueError as e:
        if exp is None: return
        if prop == "C15": R.fail("rejected", show(stack) + how, f"well-formed decorators raise {e!r}")
        return
    except Exception as e:
        R.fail("raises", show(stack) + how, f"expansion raises {e!r}")
        return
    if exp is None:
        if prop == "C15": R.fail("misbound", show(stack) + how, f"a value of the wrong shape is accepted: {got}")
        return
    singles, want = exp
    if not stack:
        if prop == "C15" and not (len(got) == 1 and got[0][0] == "" and got[0][1] == {}): R.fail("plain", "no decorators", f"{got}")
        return
    if prop == "C15":
        if len(got) != len(want): R.fail("count", show(stack) + how, f"{len(got)} cases instead of {len(want)}: {got}")
        else:
            for i, ((c, kw), g) in enumerate(zip(want, got)):
                if not same_kw(kw, g[1]):
                    R.fail("args", show(stack) + how, f"case {i} gets {g[1]} instead of {kw}")
                    break
        return
    ids = [g[0] for g in got]
    if len(set(ids)) != len(ids): R.fail("repeat", show(stack) + how, f"two cases have the same id: {ids}")
    if len(got) != len(want): return R.fail("number", show(stack) + how, f"{len(ids)} ids for {len(want)} cases")
    per = [alone(*e) for e in stack]
    joined = ["-".join(per[k][j] for k, j in enumerate(c)) for c, _ in want]
    why = ids_ok(joined, ids)
    if why: R.fail("ids", show(stack) + how, f"{why}: {ids}")
    for (n, v, i), p in zip(stack, per):
        why = ids_ok(single_ids(v, i), p)
        if why: R.fail("single", show([(n, v, i)]), f"{why}: {p}")


def decorate(stack, style):
    def fn(**kw): pass
    def other(**kw): pass
    if style == "pytest":
        fn.pytestmark = [SimpleNamespace(name="skip", args=(), kwargs={})] if rng.random() < .3 else []
        for names, vals, ids in stack:
            fn.pytestmark.append(SimpleNamespace(name="parametrize", args=(",".join(names), list(vals)) if rng.random() < .5 else (list(names), tuple(vals)), kwargs={} if ids is None else {"ids": list(ids)}))
            fn.pytestmark.append(SimpleNamespace(name="slow", args=(("z", [1, 2])), kwargs={}))
        return fn
    for names, vals, ids in stack:
        n = rng.choice([", ".join(names), ",".join(names), list(names), tuple(names)])
        try:
            d = rtest.mark.cases(n, rng.choice([list, tuple, iter])(vals), ids=ids if ids is None else rng.choice([list, tuple])(ids))
            out = d(fn)
        except Exception as e:
            R.fail("decorate", show(stack), f"decorating raises {e!r}")
            return None
        if out is not fn and prop == "C15": R.fail("replaced", show(stack), "the decorator does not return the decorated test")
        if rng.random() < .3:      # the same decorator object on another function leaves this one alone
            d(other); d(other)
    if rng.random() < .2:
        out = rtest.mark.skip("why")(fn)
        if out is not fn and prop == "C15": R.fail("replaced", show(stack), "skip does not return the decorated test")
    return fn


def run(stack, style="rtest"):
    fn = decorate(stack, style)
    if fn is None: return
    R.case(repr(stack) + style, show(stack))
    judge(stack, fn, f" [{style}]")
    if rng.random() < .1: judge(stack, fn, f" [{style}, expanded a second time]")


run([])
run([], "pytest")
small = [None, "a", "a_1", 1]
for k in range(0, 4):
    for vals in itertools.product(["a", "a_1", "b", 1], repeat=k):
        run([(["x"], list(vals), None)])
for k in range(1, 5 if thorough else 4):
    for ids in itertools.product(["a", "a_1", "a_2", "b"], repeat=k):
        run([(["x"], list(range(k)), list(ids))])
for n1 in range(0, 4):
    for n2 in range(0, 4):
        for n3 in (None, 0, 1, 2, 3):
            st = [(["x"], [f"x{i}" for i in range(n1)], None), (["y"], [f"y{i}" for i in range(n2)], None)]
            if n3 is not None: st.append((["z", "w"], [(i, Opq(i)) for i in range(n3)], [f"i{j}" for j in range(n3 - 1)] if n3 else []))
            run(st)
            run(st, "pytest")
# joined ids that meet
run([(["x"], ["a-b", "a"], None), (["y"], ["c", "b-c"], None)])
run([(["x"], ["a", "a-b"], None), (["y"], ["b-c", "c", "c_1"], None)])
# one name, sequence values; two names, wrong shapes; the same name twice
for v in SCALARS:
    run([(["x"], [v], None)])
    run([(["x", "y"], [v], None)])
    run([(["x", "y"], [(1, 2), v], None)])
    run([(["x", "y", "z"], [v, (1, 2, 3)], None)])
    run([(["x"], [v, v, v], None), (["x"], [0, 1], None)])
for _ in range(12000 if thorough else 1500):
    st = []
    for d in range(rng.choice([1, 1, 2, 2, 3, 4])):
        nn = rng.choice([1, 1, 1, 2, 3])
        names = rng.sample(["a", "b", "c", "d", "e"], nn)
        nv = rng.choice([0, 1, 2, 3, 4, 5]) if len(st) < 2 else rng.choice([1, 2, 3])
        vals = []
        for _i in range(nv):
            if nn == 1 or rng.random() < .02: vals.append(rng.choice(SCALARS))
            else: vals.append(rng.choice([tuple, list])([rng.choice(SCALARS) for _j in range(nn if rng.random() < .98 else rng.choice([nn - 1, nn + 1]))]))
        ids = None if rng.random() < .5 else [rng.choice(IDS) for _i in range(max(0, nv + rng.choice([-2, -1, 0, 0, 0, 1])))]
        st.append((names, vals, ids))
    run(st, rng.choice(["rtest", "rtest", "pytest"]))

if prop == "C16" and hasattr(M, "get_case_nodeid_suffix"):
    for cid in ["", "a", "[", "a]", "0"]:
        if M.get_case_nodeid_suffix(cid) != (f"[{cid}]" if cid else ""): R.fail("suffix", cid, M.get_case_nodeid_suffix(cid))
if prop == "C15":
    # a list shared by nothing: decorating one test never changes another one
    fs = []
    for i in range(6):
        def f(): pass
        fs.append(f)
    d1, d2 = rtest.mark.cases("x", [1, 2]), rtest.mark.cases("y", [3])
    for i, f in enumerate(fs):
        if i & 1: d1(f)
        if i & 2: d2(f)
        if i & 4: d1(f)
    for i, f in enumerate(fs):
        R.case(f"shared{i}")
        n = (2 if i & 1 else 1) * (2 if i & 4 else 1)
        if len(M.expand_parametrize(f)) != n: R.fail("shared", f"decorator objects reused on several tests, test {i}", f"{len(M.expand_parametrize(f))} cases instead of {n}")
R.done()
