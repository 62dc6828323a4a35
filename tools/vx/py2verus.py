"""Mechanical translation of Python source functions (ast) to Verus text.

Every function becomes a function returning Result<T, Exc>; an operation that may raise becomes a `match` whose Err
arm leaves the function (or, inside try/with, the block).  Names, control flow and evaluation order are kept.  What is
rewritten or dropped is listed in DESIGN.md ("Extraction, Python").  Anything unknown raises Unsupported: the function
is then reported as not decided by the verifier on this run.
"""
import ast, copy, os, re
from rs2verus import Tr, Unsupported
import unit as U

KEYWORDS = set("match type ref move fn let mut loop impl trait struct enum mod use pub crate self super where unsafe dyn box final spec proof exec".split())
EXC = {"BaseException", "Exception", "AssertionError", "KeyboardInterrupt", "SystemExit", "ValueError", "TypeError", "AttributeError", "KeyError", "IndexError",
       "RuntimeError", "ImportError", "OSError", "DeprecationWarning", "StopIteration", "GeneratorExit", "NotImplementedError", "Warning", "UserWarning", "LookupError", "SyntaxError", "ModuleNotFoundError"}
KINDS = {"str": "Str", "int": "Int", "float": "Float", "bool": "Bool", "list": "List", "tuple": "Tuple", "type": "Type"}
MUTATING = {"append": "py_append", "extend": "py_extend", "update": "py_update", "add": "py_add_item", "insert": "py_insert", "sort": "py_sort"}
PURE = {"join": "py_join", "strip": "py_strip", "split": "py_split", "replace": "py_replace", "startswith": "py_startswith", "endswith": "py_endswith", "get": "py_dget"}
PURE_FN = {"len", "isinstance", "tuple", "list", "str", "repr", "enumerate", "zip", "range", "any", "all", "dict", "set", "sorted", "hasattr", "type", "issubclass", "bool", "reversed"}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return None


class Mark:
    """op is a Result; its Ok value is bound to t.  flow: the Ok value is a Flow<R> deciding what happens next."""
    def __init__(self, op, t, flow=False):
        self.op, self.t, self.flow = op, t, flow


class Cls:
    def __init__(self, name, kind, fields, node):
        self.name, self.kind, self.fields, self.node = name, kind, fields, node


# ---------------------------------------------------------------- blocks, names
def sub_blocks(s):
    if isinstance(s, ast.If):
        return [s.body, s.orelse]
    if isinstance(s, (ast.For, ast.While)):
        return [s.body, s.orelse]
    if isinstance(s, ast.With):
        return [s.body]
    if isinstance(s, ast.Try):
        return [s.body] + [h.body for h in s.handlers] + [s.orelse, s.finalbody]
    return []


def header(s):
    """expression parts of a compound statement outside its blocks"""
    if isinstance(s, (ast.If, ast.While)):
        return [s.test]
    if isinstance(s, ast.For):
        return [s.iter, s.target]
    if isinstance(s, ast.With):
        return [x.context_expr for x in s.items]
    if isinstance(s, ast.Try):
        return [h.type for h in s.handlers if h.type]
    return [s]


def names_in(n):
    """names occurring in n (comprehension variables excluded)"""
    out = set()
    def go(x, bound):
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            b = set(bound)
            for g in x.generators:
                go(g.iter, b)
                b |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for c in g.ifs:
                    go(c, b)
            for e in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                go(e, b)
            return
        if isinstance(x, ast.Lambda):
            go(x.body, set(bound) | {a.arg for a in x.args.args})
            return
        if isinstance(x, ast.Name):
            if x.id not in bound:
                out.add(x.id)
        for c in ast.iter_child_nodes(x):
            go(c, bound)
    if isinstance(n, list):
        for y in n:
            go(y, set())
    else:
        go(n, set())
    return out


def targets(n):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]


def terminates(block):
    if not block:
        return False
    s = block[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return terminates(s.body) and terminates(s.orelse)
    return False


def norm_loop(body):
    """`if c: ..; continue` followed by rest  ->  if c: .. else: rest;  a trailing `continue` is dropped"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Continue):
            return out, True
        if isinstance(s, ast.If):
            a, ca = norm_loop(s.body)
            b, cb = norm_loop(s.orelse)
            rest = body[i + 1:]
            if ca and cb:
                out.append(ast.copy_location(ast.If(s.test, a or [ast.Pass()], b), s))
                return out, True
            if ca and (rest or True):
                r, cr = norm_loop(rest)
                out.append(ast.copy_location(ast.If(s.test, a or [ast.Pass()], b + r), s))
                return out, cr
            if cb:
                r, cr = norm_loop(rest)
                out.append(ast.copy_location(ast.If(s.test, a + r, b or [ast.Pass()]), s))
                return out, cr
            out.append(ast.copy_location(ast.If(s.test, a, b), s))
            continue
        out.append(s)
    return out, False


def norm(block):
    out = []
    for s in block:
        s = copy.copy(s)
        if isinstance(s, ast.If):
            s.body, s.orelse = norm(s.body), norm(s.orelse)
        elif isinstance(s, (ast.For, ast.While)):
            s.body = norm(norm_loop(s.body)[0]) or [ast.Pass()]
        elif isinstance(s, ast.With):
            s.body = norm(s.body)
        elif isinstance(s, ast.Try):
            s.body, s.orelse, s.finalbody = norm(s.body), norm(s.orelse), norm(s.finalbody)
            hs = []
            for h in s.handlers:
                h = copy.copy(h)
                h.body = norm(h.body)
                hs.append(h)
            s.handlers = hs
        out.append(s)
    return out


def assigns(s, name):
    if isinstance(s, ast.Assign):
        return any(isinstance(x, ast.Name) and x.id == name for t in s.targets for x in ([t] + (t.elts if isinstance(t, ast.Tuple) else [])))
    if isinstance(s, ast.AnnAssign):
        return isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None
    return False


def definitely(s, name):
    """s assigns name on every path that continues after it"""
    if assigns(s, name):
        return True
    def blk(b):
        return terminates(b) or any(definitely(x, name) for x in b)
    if isinstance(s, ast.If):
        return blk(s.body) and blk(s.orelse)
    if isinstance(s, ast.With):
        return blk(s.body)
    if isinstance(s, ast.Try):
        return blk(s.body) and all(blk(h.body) for h in s.handlers) or (bool(s.finalbody) and blk(s.finalbody))
    return False


def homes(block, name):
    """[(block, index of the declaring statement, deferred)] or None when the block reads the name before defining it"""
    idx = [i for i, s in enumerate(block) if name in names_in(s)]
    if not idx:
        return []
    s = block[idx[0]]
    if assigns(s, name):
        v = s.value
        if name in names_in(v):
            return None
        return [(id(block), idx[0], False)]
    if isinstance(s, ast.For) and name in targets(s.target) and name not in names_in(s.iter) and len(idx) == 1:
        return []          # a loop variable (bound inside)
    res = []
    ok = True
    for i in idx:
        c = block[i]
        if isinstance(c, ast.For) and name in targets(c.target):
            if name in names_in(c.iter):
                ok = False
                break
            continue
        if not sub_blocks(c) or name in set().union(*[names_in(h) for h in header(c)], set()):
            ok = False
            break
        for b in sub_blocks(c):
            h = homes(b, name)
            if h is None:
                ok = False
                break
            res += h
        if not ok:
            break
    if ok:
        return res
    if definitely(s, name) or True:
        if definitely(s, name):
            return [(id(block), idx[0], True)]
    return None


class PyTr(Tr):
    def __init__(self, unit):
        super().__init__(unit)
        self.env = {}            # variable -> Rust type text (when known)
        self.lines = []
        self.mode = "F"
        self.decls = {}
        self.rename = {}
        self.selfmode = None     # "init": self.x are locals
        self.exit_text = ""
        self.inl = []
        self.loop_depth_flow = []

    # ---------------- types
    def ptype(self, n, where=None):
        if n is None:
            return None
        if isinstance(n, ast.Constant):
            if n.value is None:
                return "()"
            if isinstance(n.value, str):
                return self.ptype(ast.parse(n.value, mode="eval").body)
        if isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
            d = dotted(n)
            m = {"str": "String", "int": "Int", "float": "Fl", "bool": "bool", "object": "Val", "Any": "Val", "type": "Obj", "FunctionType": "Obj", "ModuleType": "Obj", "F": "Obj",
                 "None": "()", "list": "PyList<Val>", "tuple": "PyList<Val>", "BaseException": "Exc", "Exception": "Exc", "dict": "PyDict<String, Val>", "TracebackType": "Val"}
            if d in self.u.type_map:
                return self.u.type_map[d]
            if d in self.u.classes:
                return d
            if d in m:
                return m[d]
            raise Unsupported("type " + str(d))
        if isinstance(n, ast.Subscript):
            b = dotted(n.value).split(".")[-1]
            src = ast.unparse(n)
            if src in self.u.type_map:
                return self.u.type_map[src]
            a = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if b in ("list", "Sequence", "List", "Iterable", "Iterator", "Collection"):
                return f"PyList<{self.ptype(a[0])}>"
            if b in ("tuple", "Tuple"):
                if len(a) == 2 and isinstance(a[1], ast.Constant) and a[1].value is Ellipsis:
                    return f"PyList<{self.ptype(a[0])}>"
                return "(" + ", ".join(self.ptype(x) for x in a) + ")"
            if b in ("dict", "MappingProxyType", "Mapping", "Dict"):
                return f"PyDict<{self.ptype(a[0])}, {self.ptype(a[1])}>"
            if b in ("set", "Set", "frozenset"):
                return f"PySet<{self.ptype(a[0])}>"
            if b == "Optional":
                return f"Option<{self.ptype(a[0])}>"
            if b == "Literal":
                return "String"
            if b in ("Callable", "type", "Type"):
                return "Obj"
            raise Unsupported("type " + src)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            parts = []
            def fl(x):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    fl(x.left); fl(x.right)
                else:
                    parts.append(x)
            fl(n)
            non = [p for p in parts if not (isinstance(p, ast.Constant) and p.value is None)]
            src = ast.unparse(n)
            if src in self.u.type_map:
                return self.u.type_map[src]
            if len(non) == 1:
                t = self.ptype(non[0])
                return t if t == "Val" else f"Option<{t}>" if len(non) < len(parts) else t
            t = "Val"
            key = " | ".join(ast.unparse(x) for x in non)
            t = self.u.type_map.get(key, "Val")
            return t if t == "Val" or len(non) == len(parts) else f"Option<{t}>"
        raise Unsupported("type " + ast.unparse(n))

    def vtype(self, name, ann=None):
        k = f"{self.cur_py}.{name}"
        if k in self.u.var_types:
            return self.u.var_types[k]
        return self.ptype(ann) if ann is not None else None

    def elem(self, t):
        m = re.match(r"PyList<(.*)>$", t or "")
        return m.group(1) if m else None

    def static(self, n):
        """Rust type text of an expression when the translator knows it"""
        if isinstance(n, ast.Name):
            return self.env.get(n.id)
        if isinstance(n, ast.Constant):
            v = n.value
            return "bool" if isinstance(v, bool) else "String" if isinstance(v, str) else "Int" if isinstance(v, int) else "Fl" if isinstance(v, float) else None
        if isinstance(n, ast.JoinedStr):
            return "String"
        if isinstance(n, (ast.Compare,)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return "bool"
        if isinstance(n, ast.Attribute):
            if self.selfmode and isinstance(n.value, ast.Name) and n.value.id == "self":
                return self.env.get("self." + n.attr)
            for c in self.u.classes.values():
                for f in c.fields:
                    if f[0] == n.attr:
                        try:
                            return self.u.field_type(c, f)
                        except Unsupported:
                            return None
            return None
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d in self.u.classes:
                return d
            if d in ("len", "int"):
                return "Int"
            if d in ("str", "repr"):
                return "String"
            if d in ("any", "all", "isinstance", "bool", "hasattr", "issubclass"):
                return "bool"
            if d == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value in self.u.attrs:
                t = self.u.attrs[n.args[1].value]["ty"]
                return f"Option<{t}>" if len(n.args) == 3 and isinstance(n.args[2], ast.Constant) and n.args[2].value is None else t
            if d in self.u.pyfns:
                return self.u.pyfns[d].get("ret")
            k = self.u.find_fn(d) if d else None
            if k:
                return self.u.ret_type(k)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "strip", "replace"):
                return "String"
            if isinstance(n.func, ast.Attribute) and n.func.attr == "split":
                return "PyList<String>"
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and self.dict_val(n.func.value) == "Val":
                return "Val"
            if d == "sorted" and re.match(r"Py(Set|List)<String>$", self.static(n.args[0]) or ""):
                return "PyList<String>"
            if d in ("tuple", "list", "sorted", "reversed") and n.args:
                return self.static(n.args[0]) if (self.static(n.args[0]) or "").startswith("PyList") else None
        if isinstance(n, ast.Subscript):
            return self.static(n.value) if isinstance(n.slice, ast.Slice) else self.elem(self.static(n.value))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return "PyList<_>"
        if isinstance(n, ast.IfExp):
            a, b = self.static(n.body), self.static(n.orelse)
            return a if a == b else None
        return None

    # ---------------- lines
    def emit(self, s):
        self.lines.append(s)

    def collect(self, f):
        """run f with a fresh line buffer; returns (result, lines)"""
        old, self.lines = self.lines, []
        try:
            r = f()
            return r, self.lines
        finally:
            self.lines = old

    def bind_op(self, op, base="t"):
        t = self.fresh(base)
        self.lines.append(Mark(op, t))
        return t

    def flow_op(self, op):
        self.lines.append(Mark(op, None, True))

    def has_marks(self, lines):
        return any(isinstance(l, Mark) for l in lines)

    def fold_F(self, lines):
        out = []
        for l in lines:
            if isinstance(l, str):
                out.append(l)
            elif l.flow:
                e = self.fresh("e")
                inl = ""
                if self.in_loop:
                    inl = "Ok(Flow::Brk) => { break; } Ok(Flow::Cont) => { continue; } "
                else:
                    inl = "Ok(Flow::Brk) => {} Ok(Flow::Cont) => {} "
                r = self.fresh("fl")
                out.append(f"let {r}: Result<Flow<{self.RT}>, Exc> = {l.op};\nmatch {r} {{ Err({e}) => {{ {self.ret_F('Err(' + e + ')')} }} Ok(Flow::Ret(rv)) => {{ {self.ret_F('Ok(rv)')} }} {inl}Ok(Flow::Next) => {{}} }}")
            else:
                e = self.fresh("e")
                pat = f"let {l.t} = " if l.t else ""
                out.append(f"{pat}match {l.op} {{ Ok(v) => v, Err({e}) => {{ {self.ret_F('Err(' + e + ')')} }} }};")
        return "\n".join(out)

    def ret_F(self, v):
        if self.exit_text:
            return f"let {self.ret_name}: Result<{self.RT}, Exc> = {v};\n{self.exit_text}\nreturn {self.ret_name};"
        return f"return {v};"

    # ---------------- expressions
    def nm(self, n):
        n = self.rename.get(n, n)
        return n + "_" if n in KEYWORDS else n

    def s_lit(self, s):
        return self.strlit(s) + ".x_clone()"

    def to(self, text, have, want, node=None):
        """text coerced to the Rust type `want`"""
        if want is None:
            return text
        if isinstance(node, ast.Constant) and node.value is None:
            return "Val::None" if want == "Val" else "None" if want.startswith("Option") else "()" if want == "()" else text
        if isinstance(node, (ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.GeneratorExp)) and want.startswith(("PyList", "PyDict", "PySet")):
            return text
        if have == want and want is not None:
            return text
        if have and have.endswith("<_>") and want.startswith(have[:-3]):
            return text
        m = re.match(r"Option<(.*)>$", want)
        if m and isinstance(node, (ast.List, ast.Dict)):
            return f"Some({text})"
        return f"({text}).to()"

    def val(self, n, want=None):
        """owned value of expression n, coerced to `want` if given"""
        old, self.expect = self.expect, want
        t = self.ev(n)
        self.expect = old
        if want is None:
            return t
        if isinstance(n, ast.IfExp) or isinstance(n, ast.BoolOp) and not self.is_boolish(n):
            return t        # both branches were coerced
        return self.to(t, self.static(n), want, n)

    def ref(self, n):
        """expression usable as a method receiver (no copy of a variable)"""
        if isinstance(n, ast.Name) and n.id == "self" and self.self_ty and self.selfmode != "init":
            return "self"
        if isinstance(n, ast.Name) and self.is_local(n.id):
            return self.nm(n.id)
        if isinstance(n, ast.Attribute) and self.is_field(n):
            return self.field(n)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return self.strlit(n.value)
        t = self.ev(n)
        return t if re.match(r"[\w.()\":, ]*$", t) and not t.startswith("{") else f"({t})"

    def is_local(self, name):
        return name in self.locals

    def is_field(self, n):
        if not isinstance(n, ast.Attribute):
            return False
        if isinstance(n.value, ast.Name) and n.value.id == "self" and (self.self_ty or self.selfmode):
            return any(f[0] == n.attr for f in self.u.classes[self.self_ty].fields)
        if n.attr in self.u.attrs and not any(f[0] == n.attr for c in self.u.classes.values() for f in c.fields):
            return False
        if n.attr in self.u.props:
            return False
        return any(f[0] == n.attr for c in self.u.classes.values() for f in c.fields)

    def field(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == "self" and self.selfmode == "init":
            return "self_" + n.attr
        return f"{self.ref(n.value)}.{n.attr}"

    def ev(self, n):
        m = getattr(self, "p_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n)

    def p_Constant(self, n):
        v = n.value
        if v is None:
            return "None"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return f"pyint({v})"
        if isinstance(v, float):
            return f'pyfloat("{v}")'
        if isinstance(v, str):
            return self.s_lit(v)
        raise Unsupported("constant " + repr(v))

    def p_Name(self, n):
        if self.is_local(n.id):
            if self.env.get(n.id) == "bool":
                return self.nm(n.id)
            return f"{self.nm(n.id)}.x_clone()"
        if n.id in self.u.consts:
            return self.ev(self.u.consts[n.id])
        if n.id in EXC:
            return f"cls({self.strlit(n.id)})"
        raise Unsupported("name " + n.id)

    def p_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(self.s_lit(v.value))
            else:
                if v.format_spec is not None:
                    raise Unsupported("format specification")
                if v.conversion == ord("r"):
                    parts.append(f"py_repr(&({self.ref(v.value)}))")
                elif v.conversion in (-1, ord("s")):
                    parts.append(f"{self.ref(v.value)}.py_str()")
                else:
                    raise Unsupported("format conversion")
        if not parts:
            return self.s_lit("")
        r = parts[0]
        for p in parts[1:]:
            r = f"x_cat({r}, {p})"
        return r

    def p_BinOp(self, n):
        f = {ast.Add: "py_add", ast.Sub: "py_sub", ast.Mult: "py_mul"}.get(type(n.op))
        if f is None:
            raise Unsupported("operator")
        l = self.ref(n.left)
        return f"{l}.{f}({self.val(n.right)})"

    def p_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return f"!({self.cond(n.operand)})"
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, int):
            return f"pyint(-{n.operand.value})"
        raise Unsupported("unary operator")

    def p_Compare(self, n):
        if len(n.ops) > 1:
            raise Unsupported("chained comparison")
        op, l, r = n.ops[0], n.left, n.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if not (isinstance(r, ast.Constant) and r.value is None):
                if isinstance(r, ast.Constant) and isinstance(r.value, bool):
                    raise Unsupported("is True/False")
                raise Unsupported("identity comparison")
            t = f"{self.ref(l)}.is_none_()"
            return t if isinstance(op, ast.Is) else f"!{t}"
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
            if isinstance(r, ast.Constant) and r.value is None:
                t = f"{self.ref(l)}.is_none_()"
            else:
                t = f"{self.ref(l)}.py_eq({self.val(r)})"
            return t if isinstance(op, ast.Eq) else f"!{t}"
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r, (ast.Tuple, ast.List, ast.Set)) and r.elts and all(isinstance(e, ast.Constant) for e in r.elts):
                x = self.ref(l)
                t = "(" + " || ".join(f"{x}.py_eq({self.val(e)})" for e in r.elts) + ")"
            else:
                x = self.val(l)
                t = f"{self.ref(r)}.py_in({x})"
            return t if isinstance(op, ast.In) else f"!{t}"
        f = {ast.Lt: ("py_lt", 0), ast.Gt: ("py_lt", 1), ast.LtE: ("py_le", 0), ast.GtE: ("py_le", 1)}.get(type(op))
        if f is None:
            raise Unsupported("comparison")
        a, b = self.ref(l), self.ref(r)
        if f[1]:
            a, b = b, a
        return f"{f[0]}(&({a}), &({b}))"

    def is_boolish(self, n):
        return isinstance(n, ast.Compare) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) or self.static(n) == "bool" or \
            isinstance(n, ast.BoolOp) and all(self.is_boolish(v) for v in n.values)

    def cond(self, n):
        """Rust bool: the truth of n"""
        if isinstance(n, ast.BoolOp):
            return self.boolop(n, True)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            return self.p_Constant(n)
        t = self.ev(n) if self.is_boolish(n) else None
        if t is not None:
            return t if re.match(r"[\w.&()!*,\" ]+$", t) else f"({t})"
        st = self.static(n)
        return self.truth(self.ref(n), st)

    def truth(self, text, st):
        """truth of a value; that of a handle depends on the state"""
        h = re.sub(r"^Option<(.*)>$", r"\1", st or "") in self.u.htypes
        return f"{text}.truth_w(w)" if h else f"{text}.truth()"

    def boolop(self, n, test):
        isand = isinstance(n.op, ast.And)
        if test or all(self.is_boolish(v) for v in n.values):
            cur = self.cond(n.values[0])
            for v in n.values[1:]:
                r, ls = self.collect(lambda: self.cond(v))
                if not ls:
                    cur = f"({cur}) {'&&' if isand else '||'} ({r})"
                else:
                    cur = self.branch(cur, ([], "false") if not isand and False else None, ls, r, isand)
            return f"({cur})"
        # value of `a or b`
        want = self.expect
        a = n.values[0]
        cur = self.val(a)
        ct = self.static(a)
        for v in n.values[1:]:
            t = self.fresh("alt")
            self.emit(f"let {t} = {cur};")
            (r, ls) = self.collect(lambda: self.val(v, want))
            left = self.to(f"{t}.x_clone()", ct, want)
            b1, b2 = ((ls, r), ([], left)) if isand else (([], left), (ls, r))
            cur = self.select(self.truth(t, ct), b1, b2)
            ct = want
        return cur

    def branch(self, cur, _, ls, r, isand):
        yes, no = ((ls, r), ([], "false")) if isand else (([], "true"), (ls, r))
        return self.select(cur, yes, no)

    def select(self, c, yes, no):
        """value of `if c {yes} else {no}`, each branch (lines, value)"""
        if not self.has_marks(yes[0]) and not self.has_marks(no[0]):
            return "(if " + c + " { " + "\n".join(yes[0]) + " " + yes[1] + " } else { " + "\n".join(no[0]) + " " + no[1] + " })"
        op = f"if {c} {self.fold_B(yes[0], 'Ok(' + yes[1] + ')')} else {self.fold_B(no[0], 'Ok(' + no[1] + ')')}"
        t = self.fresh("sel")
        v = self.fresh("cv")
        # the type of the error side is fixed by the annotation
        self.emit(f"let {v}: Result<_, Exc> = {op};")
        self.lines.append(Mark(v, t))
        return t

    def p_BoolOp(self, n):
        return self.boolop(n, False)

    def p_IfExp(self, n):
        c = self.cond(n.test)
        want = self.expect
        a = self.collect(lambda: self.val(n.body, want))
        b = self.collect(lambda: self.val(n.orelse, want))
        return self.select(c, (a[1], a[0]), (b[1], b[0]))

    def p_Tuple(self, n):
        w = self.expect
        if w and w.startswith("("):
            parts = split_top(w[1:-1])
            if len(parts) == len(n.elts):
                return "(" + ", ".join(self.val(e, t) for e, t in zip(n.elts, parts)) + ")"
        if w and w.startswith("PyList"):
            return self.seq(n.elts, self.elem(w))
        if not n.elts:
            return "PyList::new()"
        return "(" + ", ".join(self.val(e) for e in n.elts) + ("," if len(n.elts) == 1 else "") + ")"

    def seq(self, elts, t):
        if not elts:
            return "PyList::new()"
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred element")
        l = self.fresh("lst")
        self.emit(f"let mut {l} = PyList::new();" if t is None else f"let mut {l}: PyList<{t}> = PyList::new();")
        for e in elts:
            v = self.val(e, t)
            self.emit(f"{l}.py_append({v});")
        return l

    def p_List(self, n):
        if (self.expect or "") in self.u.htypes:
            if n.elts:
                raise Unsupported("list with elements behind a handle")
            t = self.fresh("nl")
            self.emit(f"let {t} = new_{self.expect}(w);")
            return t
        return self.seq(n.elts, self.elem(re.sub(r"^Option<(.*)>$", r"\1", self.expect or "")))

    def p_Dict(self, n):
        m = re.match(r"(?:Option<)?PyDict<(.*)>$", (self.expect or "").replace(">>", ">") if (self.expect or "").startswith("Option") else self.expect or "")
        kt, vt = (split_top(m.group(1)) + [None, None])[:2] if m else (None, None)
        if not n.keys:
            return "PyDict::new()"
        l = self.fresh("dct")
        self.emit(f"let mut {l} = PyDict::new();")
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            a, b = self.val(k, kt), self.val(v, vt)
            self.emit(f"{l}.py_set({a}, {b});")
        return l

    def p_Attribute(self, n):
        d = dotted(n)
        if d in self.u.pyconsts:
            return self.u.pyconsts[d]
        if self.is_field(n):
            f = self.field(n)
            return f + ".x_clone()"
        if n.attr in self.u.props:
            return f"{self.ref(n.value)}.{self.u.props[n.attr]}()"
        if n.attr in self.u.attrs:
            return self.bind_op(self.getattr_op(n.value, n.attr), n.attr.strip("_"))
        raise Unsupported("attribute " + n.attr)

    def getattr_op(self, obj, name):
        a = self.u.attrs[name]
        return f"need_attr(get_{name}(&({self.ref(obj)}){', w' if a['w'] else ''}))"

    def p_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            if n.slice.step is not None:
                raise Unsupported("slice with a step")
            b = self.ref(n.value)
            end = lambda e: "None" if e is None else "Some(" + self.val(e, "Int") + ")"
            lo = end(n.slice.lower)
            return f"{b}.py_slice({lo}, {end(n.slice.upper)})"
        b = self.ref(n.value)
        return self.bind_op(f"{b}.py_idx({self.val(n.slice)})", "item")

    def p_Lambda(self, n):
        raise Unsupported("lambda")

    # ---------------- comprehensions
    def p_ListComp(self, n):
        return self.comp(n)

    def p_GeneratorExp(self, n):
        return self.comp(n)

    def p_SetComp(self, n):
        return self.comp(n, "PySet", "py_add_item")

    def comp(self, n, ty="PyList", add="py_append"):
        acc = self.fresh("acc")
        et = self.elem(self.expect or "") if ty == "PyList" else None
        self.emit(f"let mut {acc}" + (f": PyList<{et}>" if et else "") + f" = {ty}::new();")
        self.gen_loops(n.generators, lambda: self.emit(f"{acc}.{add}({self.val(n.elt, et)});"), [acc], n)
        return acc

    def gen_loops(self, gens, sink, accs, node):
        if not gens:
            sink()
            return
        g = gens[0]
        if g.is_async:
            raise Unsupported("async")
        saved = dict(self.env), set(self.locals), dict(self.rename)
        def body():
            if g.ifs:
                for c in g.ifs:
                    pass
                t = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0]
                c = self.cond(t)
                _, ls = self.collect(lambda: self.gen_loops(gens[1:], sink, accs, node))
                if self.mode == "B" and self.has_marks(ls):
                    raise Unsupported("raising operation in a comprehension inside try")
                self.emit(f"if {c} {{\n{self.fold_F(ls)}\n}}")
            else:
                self.gen_loops(gens[1:], sink, accs, node)
        self.iterate(g.target, g.iter, body, accs, node, comp=True)
        self.env, self.locals, self.rename = saved

    # ---------------- loops
    def iter_text(self, it):
        """(text of the list walked, element type)"""
        t = self.static(it)
        if isinstance(it, ast.Call) and dotted(it.func) in ("enumerate", "zip", "range", "reversed", "itertools.product"):
            return self.ev(it), self.iter_elem(it)
        if isinstance(it, (ast.List, ast.Tuple)):
            return self.seq(it.elts, None), None
        if t and t.startswith("PyList"):
            return self.ev(it), self.elem(t)
        if t and t.startswith("PyDict") or t and t.startswith("PySet"):
            raise Unsupported("iteration over a dict or set")
        return self.bind_op(f"({self.ev(it)}).items()", "walk"), None

    def iter_elem(self, it):
        d = dotted(it.func)
        if d == "range":
            return "Int"
        if d == "enumerate":
            e = self.elem(self.static(it.args[0]) or "")
            return f"(Int, {e})" if e else None
        if d == "zip" and len(it.args) == 2:
            a, b = self.elem(self.static(it.args[0]) or ""), self.elem(self.static(it.args[1]) or "")
            return f"({a}, {b})" if a and b else None
        return None

    def iterate(self, target, itx, body, accs, node, comp=False):
        st, et = self.iter_text(itx)
        it, x = self.fresh("it"), self.fresh("x")
        muts0 = list(self.muts)
        lp = self.reserve_loop({"line": getattr(node, "lineno", 0)}, it, x)
        self.lines_in_loop = True
        old_in, self.in_loop = self.in_loop, True
        oldm = self.mode

        def f():
            self.bind_target(target, x, et, comp)
            body()
        _, ls = self.collect(f)
        if self.mode == "B" and self.has_marks(ls):
            # what ends the loop early is carried out of it
            lx = self.fresh("lx")
            text = f"let step: Result<Flow<{self.RT}>, Exc> = {self.fold_B(ls, 'Ok(Flow::Next)')};\nmatch step {{ Ok(Flow::Next) => {{}} Ok(Flow::Cont) => {{}} oth => {{ {lx} = Some(oth); break; }} }}"
            self.emit(f"let mut {lx}: Option<Result<Flow<{self.RT}>, Exc>> = None;")
            self.xb[lx] = f"{lx} is None"
            accs = list(accs) + [lx]
            wrap = lx
        else:
            text = self.fold_F(ls)
            wrap = None
        self.in_loop = old_in
        self.close_loop(lp)
        muts1 = self.muts
        self.muts = muts0
        t = self.finish_loop(lp, it, f"({st}).it_into_iter()", x, text, accs, [])
        self.muts = muts1
        self.emit(t)
        if wrap:
            self.flow_op(f"match {wrap} {{ None => Ok(Flow::Next), Some(Ok(Flow::Brk)) => Ok(Flow::Next), Some(o) => o }}")

    in_loop = False

    def bind_target(self, t, x, et, comp):
        if isinstance(t, ast.Name):
            if t.id == "_":
                return
            self.locals.add(t.id)
            self.env[t.id] = self.u.var_types.get(f"{self.cur_py}.{t.id}") or et
            if not et:
                self.env.pop(t.id, None)
            self.emit(f"let {self.nm(t.id)} = {x};")
        elif isinstance(t, ast.Tuple) and len(t.elts) == 2:
            parts = split_top(et[1:-1]) if et and et.startswith("(") else [None, None]
            c = self.u.classes.get(et)
            if c and len(c.fields) == 2:
                parts = [self.u.field_type(c, f) for f in c.fields]
            for i, e in enumerate(t.elts):
                y = self.fresh("u")
                self.emit(f"let {y} = {x}.py_{i}();")
                self.bind_target(e, y, parts[i] if len(parts) == 2 else None, comp)
        else:
            raise Unsupported("unpacking")

    # ---------------- calls
    def p_Call(self, n):
        f = n.func
        d = dotted(f)
        if d in self.u.pyfns and not self.is_local(d.split(".")[0]):
            return self.table_call(self.u.pyfns[d], n)
        if isinstance(f, ast.Name):
            if self.is_local(f.id):
                return self.call_value(n)
            if f.id in self.u.classes:
                return self.construct(self.u.classes[f.id], n)
            k = self.u.find_fn(f.id, self)
            if k:
                return self.user_call(k, n)
            b = getattr(self, "b_" + f.id, None)
            if b:
                return b(n)
            raise Unsupported("call of " + f.id)
        if isinstance(f, ast.Attribute):
            if d in ("itertools.product",):
                if len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
                    return f"py_product({self.val(n.args[0].value)})"
                raise Unsupported("product")
            if isinstance(f.value, ast.Name) and f.value.id == "self" and self.self_ty:
                k = self.u.find_fn(f"{self.self_ty}::{f.attr}")
                if k:
                    return self.user_call(k, n, recv="self")
            if f.attr in self.u.pymeths:
                return self.table_call(self.u.pymeths[f.attr], n, recv=self.ref(f.value))
            if f.attr in MUTATING and f.attr not in self.u.nomut:
                raise Unsupported("mutation inside an expression")
            if f.attr in PURE:
                if n.keywords:
                    raise Unsupported("keyword argument")
                r = self.ref(f.value)
                if f.attr == "get":
                    k = self.val(n.args[0])
                    if len(n.args) == 1:
                        return f"{r}.{'py_getv' if self.dict_val(n.func.value) == 'Val' else 'py_dget'}({k})"
                    v = self.fresh("dv")
                    self.emit(f"let {v} = {self.val(n.args[1])};")
                    return f"(match {r}.py_dget({k}) {{ Some(v) => v, None => {v}.to() }})"
                if f.attr == "join":
                    return f"{r}.py_join({self.listy(n.args[0])})"
                return f"{r}.{PURE[f.attr]}(" + ", ".join(self.val(a) for a in n.args) + ")"
            if f.attr == "format":
                for a in list(n.args) + [k.value for k in n.keywords]:
                    self.ev(a)
                return "py_opaque_str()"
            if self.is_field(f):
                return self.call_value(n)
            raise Unsupported("method " + f.attr)
        if isinstance(f, ast.Call) or True:
            raise Unsupported("call of an expression")

    def dict_val(self, n):
        m = re.match(r"PyDict<(.*)>$", self.static(n) or "")
        return split_top(m.group(1))[1] if m else None

    def listy(self, a):
        """argument walked as a whole: a PyList"""
        t = self.static(a)
        if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.List)) or isinstance(a, ast.Call) and dotted(a.func) in ("enumerate", "zip", "range", "itertools.product", "reversed") or t and t.startswith("PyList"):
            return self.val(a)
        if isinstance(a, ast.Tuple):
            return self.seq(a.elts, None)
        return self.bind_op(f"({self.val(a)}).items()", "walk")

    def table_call(self, t, n, recv=None):
        if any(isinstance(a, ast.Starred) for a in n.args):
            raise Unsupported("starred argument")
        if recv is not None and t.get("mutrecv"):
            pass
        a = [self.val(x, "Val" if isinstance(x, ast.Constant) and x.value is None else None) for x in n.args]
        kw = []
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            v = self.val(k.value)
            if k.arg not in t["drop"]:
                kw.append(v)
        a += kw
        if t["w"]:
            a.append("w")
        call = (f"{recv}.{t['fn']}(" if recv is not None else f"{t['fn']}(") + ", ".join(a) + ")"
        if t["fallible"]:
            return self.bind_op(call, "c")
        if t["w"]:
            v = self.fresh("c")
            self.emit(f"let {v} = {call};")
            return v
        return call

    def call_value(self, n):
        """call of a value (user code): needs the world"""
        if "call" not in self.u.pyspecial:
            raise Unsupported("call of a value")
        f = self.ref(n.func)
        if n.args or any(k.arg for k in n.keywords) or len(n.keywords) > 1:
            raise Unsupported("arguments of a called value")
        kw = self.val(n.keywords[0].value) if n.keywords else "PyDict::new()"
        return self.bind_op(f"call_val(&{f}, {kw}, w)", "c")

    def args_for(self, params, n, what):
        """texts for params [(name, type, default node)], in parameter order; arguments are evaluated in call order"""
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            raise Unsupported("starred argument")
        got = {}
        if len(n.args) > len(params):
            raise Unsupported(what + ": too many arguments")
        for (nm, ty, df), a in zip(params, n.args):
            got[nm] = self.val(a, ty)
        by = {p[0]: p for p in params}
        for k in n.keywords:
            if k.arg not in by or k.arg in got:
                raise Unsupported(what + ": argument " + k.arg)
            got[k.arg] = self.val(k.value, by[k.arg][1])
        out = []
        for nm, ty, df in params:
            if nm in got:
                out.append(got[nm])
            elif df is not None:
                if isinstance(df, ast.Call) and dotted(df.func) in ("field", "dataclasses.field"):
                    fac = [k for k in df.keywords if k.arg == "default_factory"]
                    if not fac or dotted(fac[0].value) not in ("dict", "list", "set"):
                        raise Unsupported("default factory")
                    out.append({"dict": "PyDict::new()", "list": "PyList::new()", "set": "PySet::new()"}[dotted(fac[0].value)])
                else:
                    out.append(self.val(df, ty))
            else:
                raise Unsupported(what + ": missing argument " + nm)
        return out

    def construct(self, c, n):
        if c.kind == "plain":
            k = f"{c.name}::__init__"
            if k not in self.u.fns:
                raise Unsupported("constructor of " + c.name)
            a = self.args_for(self.u.params_of(k)[1:], n, c.name)
            return self.bind_op(f"{c.name}::__init__(" + ", ".join(a) + ")", "obj")
        ps = [(f[0], self.u.field_type(c, f), f[2]) for f in c.fields]
        a = self.args_for(ps, n, c.name)
        return f"{c.name} {{ " + ", ".join(f"{p[0]}: {v}" for p, v in zip(ps, a)) + " }"

    def user_call(self, k, n, recv=None):
        ps = self.u.params_of(k)
        if recv is not None or (ps and ps[0][0] == "self"):
            ps = ps[1:]
        if k not in self.u.c.fns:
            return self.inline_call(k, n, ps, recv)
        a = self.args_for(ps, n, k)
        nm = k.split("::")[-1]
        if self.u.is_effect(k):
            a.append("w")
        for t in [None]:
            self.call_args.setdefault(nm, [self.nm(x.id) if isinstance(x, ast.Name) else None for x in n.args])
        call = (f"{recv}.{nm}(" if recv else f"{self.u.rust_name(k)}(") + ", ".join(a) + ")"
        r = self.bind_op(call, nm.strip("_"))
        self.call_results.setdefault(nm, r)
        return r

    def inline_call(self, k, n, ps, recv):
        """a helper without a contract: its body in place"""
        if k in self.inl:
            raise Unsupported("recursive helper " + k)
        if recv:
            raise Unsupported("helper method " + k)
        a = self.args_for(ps, n, k)
        node = self.u.fns[k][0]
        self.u.inlined.add(k)
        saved = (self.env, self.locals, self.rename, self.decls, self.mode, self.RT, self.in_loop, self.cur_py, self.exit_text, self.expect)
        self.inl.append(k)
        sfx = "_" + self.fresh("h")
        body = norm(strip_doc(node.body))
        self.env, self.locals, self.decls = {}, set(), {}
        self.rename = {}
        self.RT = self.u.ret_type(k)
        self.cur_py = k
        pre = []
        for (nm, ty, df), v in zip(ps, a):
            self.locals.add(nm)
            self.rename[nm] = nm + sfx
            self.env[nm] = ty
            pre.append(f"let mut {self.nm(nm)}: {ty} = {v};")
        self.plan(body, set(p[0] for p in ps), sfx)
        self.mode = "B"
        _, ls = self.collect(lambda: self.block(body))
        op = self.fold_B(ls, self.end_tail(body))
        rt = self.RT
        (self.env, self.locals, self.rename, self.decls, self.mode, self.RT, self.in_loop, self.cur_py, self.exit_text, self.expect) = saved
        self.inl.pop()
        for p in pre:
            self.emit(p)
        v = self.fresh("inl")
        self.emit(f"let {v}: Result<Flow<{rt}>, Exc> = {op};")
        none = "Ok(())" if rt == "()" else "Err(exc_new(cls(" + self.strlit("SystemError") + "), py_opaque_str()))"
        return self.bind_op(f"(match {v} {{ Err(e) => Err(e), Ok(Flow::Ret(rv)) => Ok(rv), Ok(_) => {none} }})", "inl")

    def end_tail(self, body):
        return "Ok(Flow::Next)"

    # builtins
    def b_len(self, n):
        return f"{self.ref(n.args[0])}.py_len()"

    def b_isinstance(self, n):
        x = self.ref(n.args[0])
        ks = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
        if isinstance(n.args[1], ast.BinOp):
            ks = []
            def fl(y):
                if isinstance(y, ast.BinOp):
                    fl(y.left); fl(y.right)
                else:
                    ks.append(y)
            fl(n.args[1])
        out = []
        for k in ks:
            d = dotted(k)
            if d in KINDS:
                out.append(f"{x}.py_is(K::{KINDS[d]})")
            elif isinstance(k, ast.Constant) and k.value is None:
                out.append(f"{x}.is_none_()")
            else:
                raise Unsupported("isinstance of " + str(d))
        return "(" + " || ".join(out) + ")"

    def b_issubclass(self, n):
        a, b = self.val(n.args[0], "Val"), self.val(n.args[1], "Val") if dotted(n.args[1]) not in EXC else f"Val::Obj({self.ev(n.args[1])})"
        return self.bind_op(f"py_issubclass({a}, {b})", "issub")

    def b_tuple(self, n):
        if not n.args:
            return "PyList::new()"
        return self.listy(n.args[0])

    b_list = b_tuple

    def b_iter(self, n):
        raise Unsupported("iter")

    def b_str(self, n):
        return f"{self.ref(n.args[0])}.py_str()" if n.args else self.s_lit("")

    def b_repr(self, n):
        return f"py_repr(&({self.ref(n.args[0])}))"

    def b_bool(self, n):
        return self.cond(n.args[0])

    def b_enumerate(self, n):
        if len(n.args) != 1 or n.keywords:
            raise Unsupported("enumerate with a start")
        return f"py_enumerate({self.listy(n.args[0])})"

    def b_zip(self, n):
        ks = [k for k in n.keywords if not (k.arg == "strict" and isinstance(k.value, ast.Constant) and k.value.value is False)]
        if len(n.args) != 2 or ks:
            raise Unsupported("zip")
        a = self.listy(n.args[0])
        b = self.listy(n.args[1])
        return f"py_zip({a}, {b})"

    def b_range(self, n):
        a = [self.val(x) for x in n.args]
        if len(a) > 2:
            raise Unsupported("range step")
        return f"py_range({'pyint(0), ' if len(a) == 1 else ''}{', '.join(a)})"

    def b_reversed(self, n):
        return f"py_reversed({self.listy(n.args[0])})"

    def b_dict(self, n):
        if n.keywords or len(n.args) > 1:
            raise Unsupported("dict")
        if not n.args:
            return "PyDict::new()"
        if (self.static(n.args[0]) or "").startswith("PyDict"):
            return self.val(n.args[0])
        return f"PyDict::py_of({self.listy(n.args[0])})"

    def b_set(self, n):
        if n.args:
            raise Unsupported("set of values")
        return "PySet::new()"

    def b_any(self, n):
        return self.anyall(n, True)

    def b_all(self, n):
        return self.anyall(n, False)

    def anyall(self, n, isany):
        g = n.args[0]
        r = self.fresh("res")
        self.xb[r] = f"!{r}" if isany else r
        self.emit(f"let mut {r} = {'false' if isany else 'true'};")
        if isinstance(g, (ast.GeneratorExp, ast.ListComp)):
            if len(g.generators) != 1 or (isinstance(g, ast.ListComp) and False):
                raise Unsupported("nested generator")
            def sink():
                c = self.cond(g.elt)
                self.emit(f"if {c if isany else '!(' + c + ')'} {{ {r} = {'true' if isany else 'false'}; break; }}")
            self.gen_loops(g.generators, sink, [r], n)
        else:
            raise Unsupported("any/all of a sequence")
        return r

    def b_getattr(self, n):
        if not (len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str)):
            if "getattr_dyn" in self.u.pyspecial and len(n.args) == 2:
                a = self.val(n.args[0], "Val")
                b = self.val(n.args[1], "String")
                w = ", w" if "getattr_w" in self.u.pyspecial else ""
                return self.bind_op(f"getattr_dyn({a}, {b}{w})", "ga")
            raise Unsupported("getattr with a computed name")
        name = n.args[1].value
        if name not in self.u.attrs:
            raise Unsupported("attribute " + name)
        a = self.u.attrs[name]
        if len(n.args) == 2:
            return self.bind_op(self.getattr_op(n.args[0], name), name.strip("_"))
        g = f"get_{name}(&({self.ref(n.args[0])}){', w' if a['w'] else ''})"
        df = n.args[2]
        t = self.fresh("at")
        self.emit(f"let {t} = {g};")
        if isinstance(df, ast.Constant) and df.value is None:
            return t
        d, ls = self.collect(lambda: self.val(df, a["ty"]))
        if self.has_marks(ls):
            # the default is evaluated before the lookup
            v = self.fresh("df")
            self.lines[-1:] = ls + [f"let {v} = {d};", f"let {t} = {g};"]
            return f"(match {t} {{ Some(v) => v, None => {v} }})"
        return f"(match {t} {{ Some(v) => v, None => {{ " + "\n".join(ls) + f" {d} }} }})"

    def b_hasattr(self, n):
        if not isinstance(n.args[1], ast.Constant) or n.args[1].value not in self.u.attrs:
            raise Unsupported("hasattr")
        name = n.args[1].value
        a = self.u.attrs[name]
        return f"!get_{name}(&({self.ref(n.args[0])}){', w' if a['w'] else ''}).is_none_()"

    def b_type(self, n):
        return f"py_type(&({self.ref(n.args[0])}))"

    def b_sorted(self, n):
        if len(n.args) != 1 or n.keywords:
            raise Unsupported("sorted with a key")
        return f"{self.ref(n.args[0])}.py_sorted()"

    # ---------------- statements
    def plan(self, body, params, sfx=""):
        """where each local is declared"""
        names = set()
        def tg(block):
            for s in block:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        names.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)) and isinstance(s.target, ast.Name):
                    names.add(s.target.id)
                elif isinstance(s, ast.With):
                    for i in s.items:
                        if i.optional_vars is not None:
                            pass
                for b in sub_blocks(s):
                    tg(b)
        tg(body)
        self.nassign = {}
        def cnt(block):
            for s in block:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        b = t
                        if isinstance(b, ast.Subscript):
                            b = b.value
                        for x in [b] + (b.elts if isinstance(b, ast.Tuple) else []):
                            if isinstance(x, ast.Name):
                                self.nassign[x.id] = self.nassign.get(x.id, 0) + 1 + (isinstance(s, ast.AugAssign) or isinstance(t, ast.Subscript))
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) \
                        and (s.value.func.attr in MUTATING or s.value.func.attr in self.u.mutmeths):
                    self.nassign[s.value.func.value.id] = 9
                for b in sub_blocks(s):
                    cnt(b)
        cnt(body)
        for nm in sorted(names):
            if sfx:
                self.rename[nm] = nm + sfx
            if nm in params:
                continue
            h = homes(body, nm)
            if h is None:
                raise Unsupported(f"variable {nm} may be read before it is assigned")
            for bid, i, deferred in h:
                self.decls.setdefault((bid, i), []).append((nm, deferred))
            if len(h) > 1 and self.nassign.get(nm, 0) < 9:      # one variable per place
                self.nassign[nm] = self.nassign.get(nm, 0) - (len([1 for x in h if not x[2]]) - 1)
        self.alias_check(body, params)

    def alias_check(self, body, params):
        """a list, dict or set that is changed must have one name and must not be stored elsewhere before its last change"""
        order = []
        loops = []
        mutated = {}
        escapes = {}
        counter = [0]
        bad = []
        fresh_ok = {}
        def expr(n, ctx_escape=True):
            # records value uses of names
            if n is None:
                return
            counter[0] += 1
            if isinstance(n, ast.Name):
                if ctx_escape:
                    escapes.setdefault(n.id, []).append((counter[0], tuple(loops)))
                return
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if isinstance(n.func, ast.Attribute):
                    m = n.func.attr
                    if isinstance(n.func.value, ast.Name):
                        if m in MUTATING or m in self.u.mutmeths:
                            mutated.setdefault(n.func.value.id, []).append((counter[0], tuple(loops)))
                    else:
                        expr(n.func.value, False)
                pure = d in PURE_FN or isinstance(n.func, ast.Attribute) and n.func.attr in PURE or d in self.u.pyfns and self.u.pyfns[d].get("pure") \
                    or d in self.u.fns and d in self.u.c.fns and "copies" in self.u.c.fns[d].attrs_py
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("extend", "update"):
                    pure = True
                for a in n.args:
                    expr(a.value if isinstance(a, ast.Starred) else a, not pure)
                for k in n.keywords:
                    expr(k.value, not pure)
                return
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                expr(n.value, False)
                if isinstance(n, ast.Subscript):
                    expr(n.slice, False)
                return
            if isinstance(n, ast.Compare):
                expr(n.left, False)
                for c in n.comparators:
                    expr(c, False)
                return
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                loops.append(id(n))
                for g in n.generators:
                    expr(g.iter, False)
                    for c in g.ifs:
                        expr(c, False)
                for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    expr(e, True)
                loops.pop()
                return
            if isinstance(n, ast.JoinedStr) or isinstance(n, ast.FormattedValue):
                for c in ast.iter_child_nodes(n):
                    expr(c, False)
                return
            if isinstance(n, ast.UnaryOp):
                expr(n.operand, False)
                return
            if isinstance(n, ast.IfExp):
                expr(n.test, False)
                expr(n.body, ctx_escape)
                expr(n.orelse, ctx_escape)
                return
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    expr(c, ctx_escape)
        def is_fresh(v):
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.Constant, ast.JoinedStr, ast.BinOp)):
                return True
            if isinstance(v, ast.Call):
                d = dotted(v.func)
                return d in ("list", "dict", "set", "tuple", "sorted") or d in self.u.pyfns
            if isinstance(v, ast.IfExp):
                return is_fresh(v.body) and is_fresh(v.orelse)
            return False
        def stm(block):
            for s in block:
                counter[0] += 1
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    expr(s.value)
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                            mutated.setdefault(t.value.id, []).append((counter[0], tuple(loops)))
                            expr(t.slice, False)
                        elif isinstance(t, ast.Name) and s.value is not None:
                            fresh_ok[t.id] = fresh_ok.get(t.id, True) and is_fresh(s.value)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value)
                    if isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name):
                        mutated.setdefault(s.target.value.id, []).append((counter[0], tuple(loops)))
                    elif isinstance(s.target, ast.Name) and (self.env_guess.get(s.target.id) or "PyList").startswith("PyList") and not isinstance(s.value, (ast.Constant, ast.JoinedStr)):
                        mutated.setdefault(s.target.id, []).append((counter[0], tuple(loops)))
                elif isinstance(s, ast.Expr):
                    expr(s.value, False)
                elif isinstance(s, ast.Return):
                    expr(s.value)
                elif isinstance(s, ast.Raise):
                    expr(s.exc, False)
                elif isinstance(s, (ast.For, ast.While)):
                    expr(s.iter if isinstance(s, ast.For) else s.test, False)
                    loops.append(id(s))
                    stm(s.body)
                    loops.pop()
                elif isinstance(s, ast.If):
                    expr(s.test, False)
                    stm(s.body); stm(s.orelse)
                else:
                    for h in header(s):
                        if isinstance(h, ast.expr):
                            expr(h, False)
                    for b in sub_blocks(s):
                        stm(b)
        self.env_guess = getattr(self, "env_guess", {})
        stm(body)
        homeloops = {}
        def hl(block, ls):
            for i, s in enumerate(block):
                for nm, _ in self.decls.get((id(block), i), []):
                    homeloops.setdefault(nm, ls)
                for b in sub_blocks(s):
                    hl(b, ls + ((id(s),) if isinstance(s, (ast.For, ast.While)) else ()))
        hl(body, ())
        for m, ms in mutated.items():
            if m in self.u.handles:
                continue
            if m in params:
                raise Unsupported(f"parameter {m} is changed in place")
            if not fresh_ok.get(m, False):
                raise Unsupported(f"{m} may share its contents with another name")
            h = homeloops.get(m, ())
            for (pe, le) in escapes.get(m, []):
                for (pm, lm) in ms:
                    common = [x for x in le if x in lm and x not in h]
                    if pe < pm or common:
                        raise Unsupported(f"{m} is stored before its last change")

    def block(self, stmts):
        """emit the lines of a block (marks included)"""
        for i, s in enumerate(stmts):
            for nm, deferred in self.decls.get((id(stmts), i), []):
                self.locals.add(nm)
                if not deferred and nm in self.declared:
                    self.declared.discard(nm)
                    self.env.pop(nm, None)
                if deferred:
                    ty = self.u.var_types.get(f"{self.cur_py}.{nm}") or self.ann_of(stmts, nm)
                    if ty:
                        self.env[nm] = ty
                    self.emit(f"let mut {self.nm(nm)}" + (f": {ty}" if ty else "") + " = undef();")
                    if self.nassign.get(nm, 0) > 2:
                        self.muts.append(self.nm(nm))
                    self.declared.add(nm)
            if self.stmt(s):
                return True
        return False

    def ann_of(self, block, nm):
        for s in ast.walk(ast.Module(block, [])):
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == nm:
                return self.vtype(nm, s.annotation)
        return None

    def assign(self, t, v_node, ann=None, text=None, have=None, decl=None):
        """target t gets the value of v_node (or text)"""
        if isinstance(t, ast.Name):
            want = self.u.var_types.get(f"{self.cur_py}.{t.id}") or (self.ptype(ann) if ann is not None else self.env.get(t.id) if t.id in self.declared else None)
            if want is None and decl is None:
                want = self.env.get(t.id)
            if text is None:
                text = self.val(v_node, want)
                st = self.static(v_node)
            else:
                st = have
                text = self.to(text, have, want) if want else text
            ty = want or st
            if ty and "_" in re.findall(r"\b_\b", ty):
                ty = None
            self.locals.add(t.id)
            if t.id in self.declared:
                self.emit(f"{self.nm(t.id)} = {text};")
            else:
                self.declared.add(t.id)
                mut = "mut " if self.nassign.get(t.id, 0) > 1 else ""
                self.emit(f"let {mut}{self.nm(t.id)}" + (f": {want}" if want else "") + f" = {text};")
                if mut:
                    self.muts.append(self.nm(t.id))
            if ty:
                self.env[t.id] = ty
            if isinstance(v_node, ast.Call) and dotted(v_node.func):
                self.call_results[dotted(v_node.func).split(".")[-1]] = self.nm(t.id)
            return
        if isinstance(t, ast.Tuple) and len(t.elts) == 2:
            x = self.fresh("pair")
            st = self.static(v_node)
            self.emit(f"let {x} = {self.val(v_node)};")
            parts = split_top(st[1:-1]) if st and st.startswith("(") else [None, None]
            c = self.u.classes.get(st)
            if c and len(c.fields) == 2:
                parts = [self.u.field_type(c, f) for f in c.fields]
            for i, e in enumerate(t.elts):
                y = self.fresh("u")
                self.emit(f"let {y} = {x}.py_{i}();")
                self.assign(e, None, text=y, have=parts[i])
            return
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and self.self_ty:
            fs = [f for f in self.u.classes[self.self_ty].fields if f[0] == t.attr]
            if not fs:
                raise Unsupported("attribute self." + t.attr)
            ty = self.u.field_type(self.u.classes[self.self_ty], fs[0])
            v = self.val(v_node, ty)
            if self.selfmode == "init":
                k = "self." + t.attr
                self.emit(f"let mut self_{t.attr}: {ty} = {v};" if k not in self.env else f"self_{t.attr} = {v};")
                self.env[k] = ty
            else:
                self.emit(f"self.{t.attr} = {v};")
            return
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            v = self.fresh("sv")
            self.emit(f"let {v} = {self.val(v_node)};")
            self.emit(f"{self.ref(t.value)}.py_set({self.val(t.slice)}, {v});")
            return
        if isinstance(t, ast.Attribute) and t.attr in self.u.attrs and "setattr" in self.u.pyspecial:
            a = self.u.attrs[t.attr]
            v = self.val(v_node, a["ty"])
            self.lines.append(Mark(f"set_{t.attr}(&({self.ref(t.value)}), {v}, w)", self.fresh("u")))
            return
        raise Unsupported("assignment target")

    def stmt(self, s):
        """emits; True when the block ends here"""
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        old, self.expect = self.expect, None
        r = m(s)
        self.expect = old
        return bool(r)

    def s_Pass(self, s):
        return False

    def s_Import(self, s):
        return False

    s_ImportFrom = s_Import

    def s_Global(self, s):
        raise Unsupported("global")

    def s_FunctionDef(self, s):
        # lifted: its value is the tuple of captured variables
        self.nested[s.name] = f"{self.cur_py}::{s.name}"
        self.locals.discard(s.name)
        return False

    def s_Assign(self, s):
        if len(s.targets) != 1:
            raise Unsupported("multiple assignment")
        self.assign(s.targets[0], s.value)

    def s_AnnAssign(self, s):
        if s.value is None:
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = self.vtype(s.target.id, s.annotation)
            return
        self.assign(s.target, s.value, ann=s.annotation)

    def s_AugAssign(self, s):
        f = {ast.Add: "py_add", ast.Sub: "py_sub", ast.Mult: "py_mul"}.get(type(s.op))
        if f is None:
            raise Unsupported("augmented assignment")
        t = s.target
        if isinstance(t, ast.Name):
            self.emit(f"{self.nm(t.id)} = {self.nm(t.id)}.{f}({self.val(s.value)});")
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            k = self.fresh("key")
            self.emit(f"let {k} = {self.val(t.slice)};")
            o = self.bind_op(f"{self.ref(t.value)}.py_idx({k}.x_clone())", "old")
            self.emit(f"{self.ref(t.value)}.py_set({k}, {o}.{f}({self.val(s.value)}));")
        else:
            raise Unsupported("augmented assignment target")

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            d = dotted(v.func)
            if d in self.u.dropstmts:
                return
            if isinstance(v.func, ast.Attribute) and v.func.attr in self.u.mutmeths:
                return self.mut_table(v)
            if isinstance(v.func, ast.Attribute) and v.func.attr in MUTATING and d not in self.u.pyfns and v.func.attr not in self.u.pymeths:
                return self.mutate(v)
        t = self.ev(v)
        if re.match(r"\w+$", t):
            return
        self.emit(f"let {self.fresh('unused')} = {t};")

    def mut_table(self, v):
        t = self.u.mutmeths[v.func.attr]
        a = [self.val(x) for x in v.args]
        if t["w"]:
            a.append("w")
        if isinstance(v.func.value, ast.Name) and not self.is_local(v.func.value.id):
            raise Unsupported("change of a global")
        r = self.nm(v.func.value.id) if isinstance(v.func.value, ast.Name) else self.ref(v.func.value)
        if v.keywords:
            raise Unsupported("keyword argument")
        self.emit(f"{r}.{t['fn']}(" + ", ".join(a) + ");") if not t["fallible"] else self.lines.append(Mark(f"{r}.{t['fn']}(" + ", ".join(a) + ")", self.fresh("u")))

    def mutate(self, v):
        m = v.func.attr
        if not isinstance(v.func.value, ast.Name) or not self.is_local(v.func.value.id):
            raise Unsupported("in-place change of something that is not a local variable")
        x = v.func.value.id
        et = self.elem(self.env.get(x) or "")
        if m == "sort":
            if v.args or len(v.keywords) != 1 or v.keywords[0].arg != "key" or not isinstance(v.keywords[0].value, ast.Lambda):
                raise Unsupported("sort")
            lam = v.keywords[0].value
            p = lam.args.args[0].arg
            path, b = "", lam.body
            while isinstance(b, ast.Attribute):
                path, b = "." + b.attr + path, b.value
            if not (isinstance(b, ast.Name) and b.id == p) or not et:
                raise Unsupported("sort key")
            self.emit(f"{self.nm(x)}.py_sort_by{path.replace('.', '_')}();")
            return
        if v.keywords or not v.args:
            raise Unsupported(m)
        if m == "append":
            a = self.val(v.args[0], et)
        elif m == "extend":
            a = self.listy(v.args[0])
        elif m == "insert":
            a = ", ".join(self.val(z) for z in v.args)
        else:
            a = self.val(v.args[0])
        self.emit(f"{self.nm(x)}.{MUTATING[m]}({a});")

    def s_Return(self, s):
        if s.value is not None and isinstance(s.value, ast.Name) and s.value.id in self.nested:
            k = self.nested[s.value.id]
            caps = self.u.captures[k]
            v = f"{self.u.closure_ty(k)} {{ " + ", ".join(f"{c}: {self.nm(c)}.x_clone()" for c in caps) + " }"
        elif isinstance(s.value, ast.Name) and s.value.id == "self" and self.RT == "SelfRef":
            v = "SelfRef {}"
        elif s.value is None:
            v = "None" if self.RT.startswith("Option") else "()"
        else:
            v = self.val(s.value, self.RT)
        if self.mode == "F":
            self.emit(self.ret_F(f"Ok({v})"))
        else:
            self.emit(Tail(f"Ok(Flow::Ret({v}))"))
        return True

    def s_Raise(self, s):
        if s.exc is None:
            if not self.handling:
                raise Unsupported("bare raise")
            e = self.handling[-1] + ".x_clone()"
        elif isinstance(s.exc, ast.Call) and dotted(s.exc.func) in EXC:
            msg = self.val(s.exc.args[0]) if s.exc.args else "py_opaque_str()"
            e = f"exc_new(cls({self.strlit(dotted(s.exc.func))}), ({msg}).to())" if (self.static(s.exc.args[0]) if s.exc.args else "String") != "String" else f"exc_new(cls({self.strlit(dotted(s.exc.func))}), {msg})"
        elif isinstance(s.exc, ast.Name) and s.exc.id in EXC:
            e = f"exc_new(cls({self.strlit(s.exc.id)}), py_opaque_str())"
        elif isinstance(s.exc, ast.Name) and self.is_local(s.exc.id) and self.env.get(s.exc.id) == "Exc":
            e = self.nm(s.exc.id) + ".x_clone()"
        else:
            raise Unsupported("raise")
        if self.mode == "F":
            self.emit(self.ret_F(f"Err({e})"))
        else:
            self.emit(Tail(f"Err({e})"))
        return True

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.lines.append(Mark(f"(if {c} {{ Ok(()) }} else {{ Err(exc_new(cls({self.strlit('AssertionError')}), py_opaque_str())) }})", self.fresh("u")))

    def s_Break(self, s):
        if self.mode == "F":
            self.emit("break;")
        else:
            self.emit(Tail("Ok(Flow::Brk)"))
        return True

    def s_Continue(self, s):
        if self.mode == "F":
            self.emit("continue;")
        else:
            self.emit(Tail("Ok(Flow::Cont)"))
        return True

    def sub(self, body, mode=None):
        """lines of a nested block, with its own scope for what it declares"""
        return self.collect(lambda: self.block(body))[1]

    def blockB(self, body):
        old, self.mode = self.mode, "B"
        ls = self.sub(body)
        self.mode = old
        return self.foldB_lines(ls)

    def foldB_lines(self, ls):
        tail = "Ok(Flow::Next)"
        if ls and isinstance(ls[-1], Tail):
            tail = ls[-1].text
            ls = ls[:-1]
        if any(isinstance(l, Tail) for l in ls):
            raise Unsupported("statement after return")
        return self.fold_B(ls, tail)

    def fold_B(self, lines, tail):
        """an expression block whose value is `tail` (a Result) unless something raises or leaves before"""
        if lines and isinstance(lines[-1], Tail):
            tail = lines[-1].text
            lines = lines[:-1]
        return self._fold_B(lines, tail)

    def _fold_B(self, lines, tail):
        out = tail
        for l in reversed(lines):
            if isinstance(l, Tail):
                raise Unsupported("statement after return")
            if isinstance(l, str):
                out = l + "\n" + out
            elif l.flow:
                e = self.fresh("e")
                out = f"match {l.op} {{ Err({e}) => Err({e}), Ok(Flow::Ret(rv)) => Ok(Flow::Ret(rv)), Ok(Flow::Brk) => Ok(Flow::Brk), Ok(Flow::Cont) => Ok(Flow::Cont), Ok(Flow::Next) => {{\n{out}\n}} }}"
            else:
                e = self.fresh("e")
                out = f"match {l.op} {{ Err({e}) => Err({e}), Ok({l.t or '_'}) => {{\n{out}\n}} }}"
        return "{\n" + out + "\n}"

    def s_If(self, s):
        c = self.cond(s.test)
        env0 = dict(self.env)
        ya = self.sub(s.body)
        env1, self.env = self.env, env0.copy()
        no = self.sub(s.orelse)
        # what both branches know of a variable's type
        self.env = {k: v for k, v in {**env1, **self.env}.items() if env1.get(k, v) == self.env.get(k, v)}
        if self.mode == "F":
            t = f"if {c} {{\n{self.fold_F(ya)}\n}}"
            if s.orelse:
                t += f" else {{\n{self.fold_F(no)}\n}}"
            self.emit(t)
            return bool(s.orelse) and terminates(s.body) and terminates(s.orelse)
        special = lambda ls: any(not isinstance(l, str) for l in ls)
        if not special(ya) and not special(no):
            self.emit(f"if {c} {{\n" + "\n".join(ya) + "\n}" + (" else {\n" + "\n".join(no) + "\n}" if s.orelse else ""))
            return False
        self.flow_op(f"(if {c} {self.foldB_lines(ya)} else {self.foldB_lines(no)})")
        return False

    def s_For(self, s):
        if s.orelse:
            raise Unsupported("for-else")
        saved = set(self.locals)
        self.iterate(s.target, s.iter, lambda: self.block(s.body), [], s)
        for t in targets(s.target):
            if t not in saved:
                self.locals.discard(t)

    def s_While(self, s):
        if s.orelse:
            raise Unsupported("while-else")
        lp = self.reserve_loop({"line": s.lineno})
        muts0 = list(self.muts)
        c, cl = self.collect(lambda: self.cond(s.test))
        old_in, self.in_loop = self.in_loop, True
        ls = self.sub(s.body)
        if self.mode == "B" and (self.has_marks(ls) or self.has_marks(cl) or any(isinstance(l, Tail) for l in ls)):
            raise Unsupported("raising operation in a while loop inside try")
        body = self.fold_F(ls)
        head = f"while {c}"
        if cl:
            head = "loop"
            body = self.fold_F(cl) + f"\nif !({c}) {{ break; }}\n" + body
        self.in_loop = old_in
        self.close_loop(lp)
        body = "{\n" + body + "\n}"
        lp.update({"kind": "while", "accs": [], "counters": [], "muts": [m for m in muts0 if re.search(r"\b%s\b" % re.escape(m), body + c)]})
        self.emit(self.user_loop(lp, head, body))

    def s_With(self, s):
        r = None
        def go(items):
            if not items:
                return self.blockB(s.body)
            it = items[0]
            d = dotted(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else None
            cm = self.u.pywith.get(d) or self.u.pywith.get("." + d.split(".")[-1] if d else None)
            if cm is None:
                raise Unsupported("context manager " + str(d))
            old, self.mode = self.mode, "B"
            def f():
                n = it.context_expr
                a = [self.val(x) for x in n.args]
                if "." + d.split(".")[-1] in self.u.pywith and d not in self.u.pywith:
                    a = [self.val(n.func.value)] + a
                h = self.fresh("cm")
                call = f"{cm['enter']}({', '.join(a + ['w'])})"
                if cm["fallible"]:
                    self.lines.append(Mark(call, h))
                else:
                    self.emit(f"let {h} = {call};")
                if it.optional_vars is not None:
                    if not isinstance(it.optional_vars, ast.Name):
                        raise Unsupported("with target")
                    self.locals.add(it.optional_vars.id)
                    self.env[it.optional_vars.id] = cm["ty"]
                    self.emit(f"let {self.nm(it.optional_vars.id)} = {h}.x_clone();")
                inner = go(items[1:])
                r = self.fresh("wr")
                self.emit(f"let {r}: Result<Flow<{self.RT}>, Exc> = {inner};")
                self.emit(f"{cm['exit']}({h}, w);")
                self.flow_op(r)
            _, ls = self.collect(f)
            self.mode = old
            return self.foldB_lines(ls)
        t = go(s.items)
        self.flow_op(t)

    def s_Try(self, s):
        if s.orelse:
            raise Unsupported("try-else")
        r = self.fresh("tr")
        body = self.blockB(s.body)
        self.emit(f"let {r}: Result<Flow<{self.RT}>, Exc> = {body};")
        if s.handlers:
            e = self.fresh("exc")
            arms = ""
            close = ""
            for h in s.handlers:
                cl = []
                if h.type is None:
                    cl = ["BaseException"]
                else:
                    cl = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                for c in cl:
                    if c not in EXC and c not in self.u.excs:
                        raise Unsupported("except " + str(c))
                test = " || ".join(f"exc_isa(&{e}, &cls({self.strlit(self.u.excs.get(c, c))}))" for c in cl)
                self.handling.append(e)
                pre = ""
                saved = set(self.locals)
                if h.name:
                    self.locals.add(h.name)
                    self.env[h.name] = "Exc"
                    pre = f"let {self.nm(h.name)} = {e}.x_clone();\n"
                hb = self.blockB(h.body)
                self.handling.pop()
                if h.name and h.name not in saved:
                    self.locals.discard(h.name)
                arms += f"if {test} {{ {pre}{hb} }} else "
            arms += f"{{ Err({e}) }}"
            r2 = self.fresh("tr")
            self.emit(f"let {r2}: Result<Flow<{self.RT}>, Exc> = match {r} {{ Ok(f) => Ok(f), Err({e}) => {{ {arms} }} }};")
            r = r2
        if s.finalbody:
            fb = self.blockB(s.finalbody)
            r3 = self.fresh("tr")
            self.emit(f"let {r3}: Result<Flow<{self.RT}>, Exc> = match {fb} {{ Err(e) => Err(e), Ok(Flow::Next) => {r}, Ok(o) => Ok(o) }};")
            r = r3
        self.flow_op(r)

    def s_Delete(self, s):
        raise Unsupported("del")


class Tail:
    def __init__(self, text):
        self.text = text


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def opt_call(v):
    """`name => [!][w] fn [-> Type] [drop a b] [pure]`"""
    a, b = v.split("=>", 1)
    m = re.match(r"\s*(!?)(w?)\s+(\S+)(?:\s+->\s+(.*?))?(?:\s+drop\s+(.*?))?(\s+pure)?\s*$", " " + b.strip() if b.strip()[0] not in "!w" or re.match(r"w\w", b.strip()) else b)
    if not m:
        raise ValueError("bad pyfn: " + v)
    return a.strip(), {"fallible": m.group(1) == "!", "w": m.group(2) == "w", "fn": m.group(3), "ret": m.group(4), "drop": (m.group(5) or "").split(), "pure": bool(m.group(6))}


class PyUnit(U.Unit):
    def load(self):
        self.classes, self.consts, self.captures, self.pyorder = {}, {}, {}, []
        self.attrs, self.pyfns, self.pymeths, self.mutmeths, self.pyconsts, self.props, self.pywith, self.var_types, self.excs = {}, {}, {}, {}, {}, {}, {}, {}, {}
        self.pyspecial, self.dropstmts, self.nomut, self.handles, self.htypes = set(), set(), set(), set(), set()
        for k, vs in self.c.opts.items():
            for v in vs:
                if k == "attr":
                    w = v.startswith("w ")
                    a, b = (v[2:] if w else v).split("=>")
                    self.attrs[a.strip()] = {"ty": b.strip(), "w": w}
                elif k == "pyfn":
                    a, d = opt_call(v)
                    (self.pyfns if not a.startswith(".") else self.pymeths)[a.lstrip(".")] = d
                elif k == "pymut":
                    a, d = opt_call(v)
                    self.mutmeths[a.lstrip(".")] = d
                elif k == "pyconst":
                    a, b = v.split("=>"); self.pyconsts[a.strip()] = b.strip()
                elif k == "pyprop":
                    a, b = v.split("=>"); self.props[a.strip()] = b.strip()
                elif k == "pytype":
                    a, b = v.split("=>"); self.var_types[a.strip()] = b.strip()
                elif k == "pyexc":
                    a, b = v.split("=>"); self.excs[a.strip()] = b.strip()
                elif k == "pyspecial":
                    self.pyspecial |= set(v.split())
                elif k == "pyhandle":
                    self.handles |= set(v.split())
                elif k == "pyhandletype":
                    self.htypes |= set(v.split())
                elif k == "pydrop":
                    self.dropstmts |= set(v.split())
                elif k == "pywith":
                    m = re.match(r"(\S+)\s*=>\s*(!?)(\w+)\s+(\w+)(?:\s+->\s+(.*))?$", v)
                    self.pywith[m.group(1)] = {"fallible": bool(m.group(2)), "enter": m.group(3), "exit": m.group(4), "ty": m.group(5)}
        for f in self.c.fns.values():
            f.attrs_py = [a for a in f.attrs if a in ("copies",)]
            f.attrs = [a for a in f.attrs if a not in ("copies",)]
        for s in self.c.sources:
            p = os.path.join(self.repo, s)
            if not os.path.exists(p):
                raise Unsupported("missing source file " + s)
            try:
                t = ast.parse(open(p).read())
            except SyntaxError as e:
                raise Unsupported(f"{s}: {e}")
            self.scan(t.body, None, s)

    def scan(self, body, cls, src):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                k = f"{cls}::{n.name}" if cls else n.name
                if k in self.fns:
                    raise Unsupported("two definitions of " + k)
                self.fns[k] = (n, cls, None, src)
                self.nested_defs(n, k, cls, src)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = self.read_class(n)
                self.scan(n.body, n.name, src)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and not cls:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and n.value is not None and isinstance(n.value, (ast.Constant, ast.JoinedStr)):
                    self.consts[t.id] = n.value
                elif isinstance(t, ast.Name):
                    self.consts.pop(t.id, None)

    def nested_defs(self, n, k, cls, src):
        params = {a.arg for a in n.args.args + n.args.kwonlyargs}
        loc = params | set(targets(ast.Module(n.body, [])))
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                kk = f"{k}::{s.name}"
                own = {a.arg for a in s.args.args + s.args.kwonlyargs} | {x for y in s.body for x in targets(y)}
                used = set()
                for y in s.body:
                    used |= names_in(y)
                self.captures[kk] = sorted((used - own) & loc - {"self"})
                self.fns[kk] = (s, None, None, src)

    def read_class(self, n):
        deco = {dotted(d) or dotted(getattr(d, "func", None)) for d in n.decorator_list}
        bases = {dotted(b) for b in n.bases}
        kind = "data" if deco & {"dataclass", "dataclasses.dataclass"} else "tuple" if bases & {"NamedTuple", "typing.NamedTuple"} else "plain"
        fields = []
        if kind != "plain":
            for s in n.body:
                if isinstance(s, ast.AnnAssign):
                    fields.append((s.target.id, s.annotation, s.value))
            for s in n.body:
                if isinstance(s, ast.FunctionDef) and s.name.startswith("__"):
                    raise Unsupported(f"hand-written {s.name} for {n.name}")
        else:
            for s in n.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    ann = {a.arg: a.annotation for a in s.args.args + s.args.kwonlyargs}
                    for y in s.body:
                        if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Attribute):
                            fields.append((y.target.attr, y.annotation, None))
                        elif isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Attribute) and dotted(y.targets[0].value) == "self":
                            a = ann.get(dotted(y.value))
                            fields.append((y.targets[0].attr, a, None))
        return Cls(n.name, kind, fields, n)

    def field_type(self, c, f):
        if f"{c.name}.{f[0]}" in self.var_types:
            return self.var_types[f"{c.name}.{f[0]}"]
        tr = PyTr(self)
        tr.cur_py = c.name
        return tr.ptype(f[1])

    def find_fn(self, name, tr=None):
        if tr is not None and name in tr.nested:
            raise Unsupported("call of a nested function")
        return name if name in self.fns else None

    def ret_type(self, k):
        if f"{k}.return" in self.var_types:
            return self.var_types[f"{k}.return"]
        n, cls = self.fns[k][0], self.fns[k][1]
        if n.name == "__init__":
            return cls
        tr = PyTr(self)
        tr.cur_py = k
        if n.returns is None:
            raise Unsupported(k + ": no return annotation")
        return tr.ptype(n.returns)

    def params_of(self, k):
        n = self.fns[k][0]
        a = n.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported("variadic function " + k)
        tr = PyTr(self)
        tr.cur_py = k
        out = []
        df = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(a.args, df)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg == "self":
                out.append(("self", None, None))
                continue
            t = self.var_types.get(f"{k}.{p.arg}") or tr.ptype(p.annotation)
            if t is None:
                raise Unsupported(f"{k}: parameter {p.arg} has no annotation")
            out.append((p.arg, t, d))
        return out

    def is_effect(self, k):
        return k in self.effect_fns or k.split("::")[-1] in self.effect_fns

    def closure_ty(self, k):
        return "Clo_" + re.sub(r"\W+", "_", k)

    def rust_name(self, k):
        n, cls = self.fns[k][0], self.fns[k][1]
        if k in self.captures:
            return re.sub(r"\W+", "_", k)
        return f"{cls}::{n.name}" if cls else n.name

    def lookup_fn(self, key):
        return self.fns[key][0] if key in self.fns else None

    def hof_params(self, fn):
        return {}

    # ---------------- emission
    def generate_items(self, out):
        for a, d in self.attrs.items():
            nm = a
            if d["w"]:
                out.append(f"pub uninterp spec fn at_{nm}(o: Val, h: Hist) -> Option<{d['ty']}>;")
                out.append(f"#[verifier::external_body] pub fn get_{nm}<A: AsVal>(o: &A, w: &mut World) -> (r: Option<{d['ty']}>) ensures r == at_{nm}(o.asval(), old(w).hist()), *final(w) == *old(w) {{ unimplemented!() }}")
            else:
                out.append(f"pub uninterp spec fn at_{nm}(o: Val) -> Option<{d['ty']}>;")
                out.append(f"#[verifier::external_body] pub fn get_{nm}<A: AsVal>(o: &A) -> (r: Option<{d['ty']}>) ensures r == at_{nm}(o.asval()) {{ unimplemented!() }}")
        out.append("#[verifier::external_body] pub fn need_attr<T>(o: Option<T>) -> (r: Result<T, Exc>) ensures match o { Some(x) => r == Ok::<T, Exc>(x), None => r is Err && r->Err_0.cls == named(\"AttributeError\"@) } { unimplemented!() }")
        for inc in self.c.includes:
            k, n = inc.split()
            c = self.classes.get(n)
            if c is None:
                raise Unsupported(f"class {n} not found")
            fs = [(f[0], self.field_type(c, f)) for f in c.fields]
            out.append(f"pub struct {n} {{ " + ", ".join(f"pub {a}: {t}" for a, t in fs) + " }")
            if c.kind == "tuple" and len(fs) == 2:
                out.append(f"impl Unp2<{fs[0][1]}, {fs[1][1]}> for {n} {{ open spec fn u0(self) -> {fs[0][1]} {{ self.{fs[0][0]} }} open spec fn u1(self) -> {fs[1][1]} {{ self.{fs[1][0]} }}\n"
                           f"#[verifier::external_body] fn py_0(&self) -> (r: {fs[0][1]}) {{ unimplemented!() }} #[verifier::external_body] fn py_1(&self) -> (r: {fs[1][1]}) {{ unimplemented!() }} }}")
        for k, caps in self.captures.items():
            if k in self.c.fns:
                out.append(f"pub struct {self.closure_ty(k)} {{ " + ", ".join(f"pub {c}: {self.var_types.get(k + '.' + c) or 'MISSING'}" for c in caps) + " }")

    def emit_fn(self, key, body=True, vac=False, mono=None):
        node, cls, trait, src = self.fns[key]
        c = self.c.fns.get(key)
        tr = PyTr(self)
        tr.self_ty = cls
        tr.cur, tr.cur_py = key, key
        tr.contract = c
        tr.muts, tr.open_loops, tr.handling, tr.nested = [], [], [], {}
        tr.locals, tr.declared = set(), set()
        tr.ghosted = set()
        tr.fnsub = {}
        ps = self.params_of(key)
        for d in node.decorator_list:
            raise Unsupported("decorated function " + key)
        rt = self.ret_type(key)
        tr.RT = rt
        stm = norm(strip_doc(node.body))
        init = node.name == "__init__"
        if init:
            tr.selfmode = "init"
        params, names = [], []
        if key in self.captures:
            for cp in self.captures[key]:
                t = self.var_types.get(f"{key}.{cp}")
                if t is None:
                    raise Unsupported("captured variable " + cp)
                ps = ps + [(cp, t, None)]
        mutself = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and dotted(x.value) == "self" for x in ast.walk(node))
        for nm, ty, d in ps:
            if nm == "self":
                if not init:
                    params.append("&mut self" if mutself else "&self")
                continue
            names.append(tr.nm(nm))
            tr.locals.add(nm)
            tr.declared.add(nm)
            tr.env[nm] = ty
            params.append(f"{'mut ' if nm in targets(node) else ''}{tr.nm(nm)}: {ty}")
            if nm in targets(node):
                tr.muts.append(tr.nm(nm))
            tr.ghosted.add(tr.nm(nm))
        tr.param_map = {}
        if c:
            if len(c.params) != len(names):
                raise Unsupported(f"{key}: parameter list changed")
            tr.param_map = dict(zip(c.params, names))
        if self.is_effect(key):
            params.append(f"{self.effect_arg}: &mut World")
        if c and c.ghost_params:
            params.append(c.ghost_params)
        ret = c.ret if c else "r"
        name = (re.sub(r"\W+", "_", key) if key in self.captures else node.name) + ("__vac" if vac else "")
        out = []
        if c:
            out += c.attrs
        if not body:
            out.append("#[verifier::external_body]")
        ct = lambda t: self.rename_params(tr, t)
        out.append(f"fn {name}(" + ", ".join(params) + f") -> ({ret}: Result<{rt}, Exc>)")
        if c and c.requires:
            out.append("requires")
            out += [f"  {ct(t)}, //@ob {key}|requires:{l}" for l, t in c.requires]
        if vac:
            out.append(f"ensures false, //@ob {key}|vac")
        elif c and c.ensures:
            out.append("ensures")
            out += [f"  {ct(t)}, //@ob {key}|ensures:{l}" for l, t in c.ensures]
        if c and c.decreases:
            out.append(f"decreases {ct(c.decreases)},")
        if not body:
            out.append("{ unimplemented!() }")
            return "\n".join(out)
        tr.plan(stm, {p[0] for p in ps})
        if c and c.exit.strip():
            tr.exit_text = ct(self.rename_params(tr, c.exit, ghost=True))
            tr.ret_name = ret
        if init:
            # `self.x` are locals until the object is returned
            tr.mode = "F"
        _, ls = tr.collect(lambda: tr.block(stm))
        text = tr.fold_F(ls)
        if not terminates(stm):
            if init:
                v = f"Ok({cls} {{ " + ", ".join(f"{f[0]}: self_{f[0]}" for f in self.classes[cls].fields) + " })"
            elif rt == "()":
                v = "Ok(())"
            elif rt.startswith("Option"):
                v = "Ok(None)"
            else:
                v = None      # falls off the end only if every path returned inside
            if v is None:
                text += "\nunreached()"
            else:
                text += "\n" + tr.ret_F(v)
        head = []
        for q in sorted(tr.lits):
            head.append(f"proof {{ reveal_strlit({q}); }}")
        for n in names:
            head.append(f"let ghost g_{n} = {n};")
        if c and c.entry.strip():
            head.append(ct(c.entry))
        if tr.exit_text and "SUB" in tr.exit_text:
            pass
        out.append("{")
        out += head + [text]
        out.append("}")
        self.loops_seen[key] = tr.loops
        self.shapes[key] = [[len(l.get("muts", [])), len(l.get("accs", []))] for l in tr.loops]
        return f"//@fn {U.name_key(key, vac)}\n" + "\n".join(out) + "\n//@endfn"

    def generate(self, vac=False):
        self.loops_seen, self.shapes, self.emitted, self.monos, self.inlined = {}, {}, [], {}, set()
        out = ["#![allow(unused_imports, unused_parens, unused_mut, unused_variables, dead_code, non_camel_case_types, unused_braces, unused_assignments, unreachable_code, non_snake_case, unused_must_use)]",
               "use vstd::prelude::*;"]
        for p in self.c.preludes:
            out.append(f"pub mod pre_{p} {{ use vstd::prelude::*;")
            for q in self.c.preludes[:self.c.preludes.index(p)]:
                out.append(f"use super::pre_{q}::*;")
            out.append(open(os.path.join(U.VERIF, "prelude", p + ".rs")).read())
            out.append(f"}}\nuse pre_{p}::*;")
        out.append("verus! {")
        self.generate_items(out)
        out.append("\n".join(self.c.spec))
        impls = {}
        for key, c in self.c.fns.items():
            if key not in self.fns:
                if not c.assumed:
                    self.unsupported[key] = "function not found in the source (lost anchor)"
                continue
            cls = self.fns[key][1] if key not in self.captures else None
            body = not c.assumed and key not in self.unsupported
            try:
                if vac:
                    t = self.emit_fn(key, body=False)
                    tv = self.emit_fn(key, body=True, vac=True) if body else ""
                else:
                    t, tv = self.emit_fn(key, body=body), ""
                    if body:
                        self.emitted.append(key)
            except Unsupported as ex:
                self.unsupported[key] = str(ex)
                try:
                    t, tv = self.emit_fn(key, body=False), ""
                except Unsupported:
                    continue
            impls.setdefault(cls, []).extend([t] + ([tv] if tv else []))
        for k, ts in impls.items():
            if k is None:
                out += ts
            else:
                out.append(f"impl {k} {{\n" + "\n".join(ts) + "\n}")
        out.append("} // verus!\nfn main() {}")
        return "\n".join(out)
