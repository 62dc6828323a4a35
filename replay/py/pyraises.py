"""C17: rtest.raises."""
import itertools, re
from common import Report, args
import rtest
from rtest.raises import RaisesContext

prop, rng, thorough = args()
R = Report()


class E1(ValueError): pass
class E2(E1): pass
class Mix(KeyError, ValueError): pass
class Meta(type):
    pass
class Odd(Exception):
    def __str__(self): return "odd text"


EXC = [ValueError, E1, E2, Mix, KeyError, LookupError, Exception, BaseException, KeyboardInterrupt, SystemExit, GeneratorExit, AssertionError, StopIteration, Odd, OSError, FileNotFoundError]
TEXTS = ["", "abc", "x.y", "x(y", "line\nabc", "ABC", "a" * 3]
PATS = [None, "", "abc", "^abc$", "b", "x.y", r"x\.y", "(?i)abc", re.compile("b"), re.compile("ABC", re.I), "^b", "c$", r"\d", "a{3}", "q|", re.compile("^line$", re.M)]
BADP = ["(", "[a", "*", "(?P<", "a{2,1}"]
BADT = [1, None, "ValueError", ValueError("x"), int, object, list, Meta, [ValueError], {ValueError}, (), (ValueError, 1), (int,), (ValueError, KeyError("k")), ((ValueError,),), (1, ValueError), (ValueError, KeyError, None)]


def tup(v): return v if isinstance(v, tuple) else (v,)


def body(exp, pat, exc):
    key = (repr(exp), repr(pat), repr(exc))
    R.case(key, f"raises({exp}, match={pat!r}) around a block that " + ("completes" if exc is None else f"raises {exc!r}"))
    inp = f"raises({exp}, match={pat!r}), block " + ("completes" if exc is None else f"raises {exc!r}")
    out = ctx = None
    try:
        with rtest.raises(exp, match=pat) as ctx:
            if exc is not None: raise exc
    except BaseException as e:
        out = e
    if exc is None:
        if not isinstance(out, AssertionError): R.fail("nothing", inp, f"nothing was raised but the helper gives {out!r}")
        return
    if not isinstance(exc, tup(exp)):
        if out is not exc: R.fail("other", inp, f"an unexpected exception does not propagate unchanged: {out!r}")
        return
    ok = pat is None or re.search(pat, str(exc)) is not None
    if ok:
        if out is not None: R.fail("expected", inp, f"the expected exception is not accepted: {out!r}")
        elif ctx is None or ctx.value is not exc: R.fail("value", inp, f"the exception is not available: {getattr(ctx, 'value', None)!r}")
    elif not isinstance(out, AssertionError) or out is exc:
        R.fail("text", inp, f"the text does not match but the helper gives {out!r}")


def make(t, s):
    return t(s) if s is not None else t()


SPECS = EXC + [tuple(c) for c in itertools.combinations(EXC[:8], 2)] + [(E2, KeyError, SystemExit), (ValueError,), (OSError, ValueError, KeyError, Exception)]
for exp in SPECS:
    body(exp, None, None)
    body(exp, "abc", None)
    for t in EXC:
        body(exp, None, make(t, "abc"))
        body(exp, "b", make(t, "abc"))
        body(exp, "^b", make(t, "abc"))
        body(exp, "", make(t, None))
for pat in PATS:
    for s in TEXTS:
        for exp in (ValueError, (KeyError, ValueError)):
            body(exp, pat, E1(s)); body(exp, pat, Odd(s)); body(exp, pat, KeyError(s)); body(exp, pat, AssertionError(s))
            body((AssertionError, Exception), pat, AssertionError(s))
for bad in BADT:
    R.case("bad" + repr(bad))
    try:
        rtest.raises(bad)
    except (TypeError, ValueError): pass
    except BaseException as e: R.fail("badtype", repr(bad), f"raises {e!r}")
    else: R.fail("badtype", repr(bad), "accepted when the helper is created")
for bad in BADP:
    for exp in (ValueError, (ValueError, KeyError)):
        R.case("badp" + bad + repr(exp))
        try:
            rtest.raises(exp, match=bad)
        except ValueError: pass
        except BaseException as e: R.fail("badpattern", bad, f"raises {e!r}")
        else: R.fail("badpattern", bad, "accepted when the helper is created")
for _ in range(20000 if thorough else 2000):
    exp = rng.choice(EXC) if rng.random() < .4 else tuple(rng.choice(EXC) for _i in range(rng.choice([1, 2, 3, 5])))
    exc = None if rng.random() < .05 else make(rng.choice(EXC), rng.choice(TEXTS))
    body(exp, rng.choice(PATS), exc)
R.done()
