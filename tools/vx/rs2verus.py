"""Mechanical translation of Rust source items (syntax tree from `rx`) to Verus text.

The translation is purely syntactic.  It keeps item, field, parameter and local names, control
flow, expressions and their order.  The rewrites (all listed in DESIGN.md, "Extraction"):
  * iterator chains and `for` loops become `loop { match it.next() {...} }`
  * closures given to Option/Result/iterator methods are inlined at their call
  * string literals / `format!` become calls of the string shim
  * println!/eprintln!/print!/eprint!/log::* statements are dropped
  * methods of std types are renamed to their contract-bearing shim (`x_<name>`)
  * `match` on string literals becomes an if/else chain
  * private helpers without a contract of their own are inlined at their call
Anything else it does not know raises Unsupported: the function is then reported as not decided
by the verifier on this run.
"""
import itertools, json, re


class Unsupported(Exception):
    pass


# std methods renamed to shims (receiver of any type)
RENAME = set("""extend to_vec is_empty get first last join contains sort sort_unstable dedup truncate
extend_from_slice cloned copied to_string to_owned clone as_str into_owned to_string_lossy to_path_buf
as_path as_ref as_deref ok into_boxed get_mut insert contains_key remove entry_push push_str trim parse
to_str to_lowercase unwrap_or unwrap_or_default min max is_ascii is_ascii_control ok_or starts_with ends_with
len_utf8 as_slice swap_remove or chars_count is_some_and rev into_iter_vec success code
copy_within reverse""".split())
SOURCES = {"iter", "into_iter", "split", "lines", "chars", "into_values", "values", "keys", "drain",
           "split_whitespace", "iter_mut", "into_keys", "bytes"}
ADAPTERS = {"map", "filter", "filter_map", "enumerate", "flat_map", "take", "skip", "chain", "cloned", "copied",
            "rev", "zip", "filter_entry", "inspect", "take_while", "peekable", "flatten"}
TERMINALS = {"collect", "any", "all", "count", "sum", "find", "position", "for_each", "next", "last", "max", "min", "fold"}
# std::process::Command building steps (each returns the builder) and what ends such a chain
BUILDER = {"arg", "args", "env", "envs", "current_dir", "stdin", "stdout", "stderr"}
BUILDER_END = {"output", "status", "spawn"}
DROP_MACROS = {"println", "eprintln", "print", "eprint", "log::warn", "log::info", "log::debug", "log::error", "log::trace",
               "debug", "info", "warn", "error", "trace", "debug_assert", "debug_assert_eq"}


def path_str(p):
    return "::".join(s["n"] for s in p["segs"])


class Ctx:
    """Per-unit translation context."""

    def __init__(self, unit):
        self.unit = unit
        self.tmp = 0
        self.fn = None
        self.notes = []

    def fresh(self, base):
        self.tmp += 1
        return f"{base}{self.tmp}"


# ---------------------------------------------------------------- helpers over the tree
def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def strip_loops(t):
    """text without nested loops (their breaks are their own)"""
    out, d = [], 0
    for part in re.split(r"(/\*L\(\*/|/\*\)L\*/)", t):
        if part == "/*L(*/":
            d += 1
        elif part == "/*)L*/":
            d -= 1
        elif d == 0:
            out.append(part)
    return "".join(out)


def pat_names(p):
    out = []
    def f(n):
        if n.get("k") == "PIdent":
            out.append(n["name"])
        if n.get("k") == "PStruct":
            pass
    walk(p, f)
    return out


def contains(n, pred, stop=lambda n: False):
    if isinstance(n, dict):
        if pred(n):
            return True
        if stop(n):
            return False
        return any(contains(v, pred, stop) for v in n.values())
    if isinstance(n, list):
        return any(contains(v, pred, stop) for v in n)
    return False


def is_closure(n):
    return n.get("k") == "Closure"


def has_try_or_return(n):
    return contains(n, lambda x: x.get("k") in ("Try", "Return"), is_closure)


# ---------------------------------------------------------------- early exits of an inlined helper
def _escapes(n):
    return has_try_or_return(n)


def _returns(n):
    return contains(n, lambda x: x.get("k") == "Return", is_closure)


def _as_stmts(e):
    if e is None:
        return []
    if e["k"] == "Block" and not e.get("label"):
        return list(e["stmts"])
    return [{"k": "Expr", "e": e, "semi": False}]


def diverges(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if s["k"] != "Expr":
        return False
    e = s["e"]
    if e["k"] == "Return":
        return True
    if e["k"] == "If":
        return e["else"] is not None and diverges(e["then"]) and diverges(_as_stmts(e["else"]))
    if e["k"] == "Match":
        return all(diverges(_as_stmts(a["body"])) for a in e["arms"])
    if e["k"] == "Block":
        return diverges(e["stmts"])
    return False


def _unitize(stmts):
    """the block as a statement: its value, if any, is dropped"""
    if stmts and stmts[-1]["k"] == "Expr" and not stmts[-1]["semi"]:
        return stmts[:-1] + [dict(stmts[-1], semi=True)]
    return stmts


def noret(stmts, ret):
    """The same block with every `return` and top-level `?` turned into nested if/match (no loops involved).  ret: "Option", "Result" or None."""
    stmts = list(stmts)
    for i, s in enumerate(stmts):
        if s["k"] == "Item" or not _escapes(s):
            continue
        pre, rest = stmts[:i], stmts[i + 1:]
        tail = lambda e: pre + [{"k": "Expr", "e": e, "semi": False}]
        fall = [0]

        def cont(block, value=False):
            """block, then the rest"""
            if diverges(block):
                return noret(block, ret)
            if not rest:
                return noret(block, ret)
            fall[0] += 1
            if fall[0] > 1 and contains(rest, lambda x: x.get("k") in ("For", "While", "Loop", "Closure")):
                raise Unsupported("early exit duplicates a loop")
            return noret(_unitize(block) + rest, ret)

        blk = lambda b: {"k": "Block", "stmts": b, "label": None}
        if s["k"] == "Let":
            init, els = s["init"], s.get("else")
            if init is not None and init["k"] == "Try" and not _escapes(init["e"]) and not els:
                return tail(try_match(init["e"], ret, noret([dict(s, init=mkpath("ok__inl"))] + rest, ret)))
            if els is not None and not _escapes(init):
                return tail({"k": "Match", "e": init, "arms": [{"pat": s["pat"], "guard": None, "body": blk(noret(rest, ret)), "line": 0},
                                                               {"pat": {"k": "PWild"}, "guard": None, "body": blk(noret(_as_stmts(els), ret)), "line": 0}]})
            if init is not None and els is None and init["k"] in ("If", "Match", "Block"):
                def put(b):
                    if diverges(b):
                        return noret(b, ret)
                    fall[0] += 1
                    if fall[0] > 1 and contains(rest, lambda x: x.get("k") in ("For", "While", "Loop", "Closure")):
                        raise Unsupported("early exit duplicates a loop")
                    if not b or b[-1]["k"] != "Expr" or b[-1]["semi"]:
                        raise Unsupported("early exit in an initialiser")
                    return noret(b[:-1] + [dict(s, init=b[-1]["e"])] + rest, ret)
                if init["k"] == "Match" and not _escapes(init["e"]) and not any(a["guard"] and _escapes(a["guard"]) for a in init["arms"]):
                    return tail(dict(init, arms=[dict(a, body=blk(put(_as_stmts(a["body"])))) for a in init["arms"]]))
                if init["k"] == "If" and not _escapes(init["cond"]) and init["else"] is not None:
                    return tail(dict(init, then=put(init["then"]), **{"else": blk(put(_as_stmts(init["else"])))}))
                if init["k"] == "Block":
                    return pre + put(init["stmts"])
            raise Unsupported("early exit in an initialiser")
        e = s["e"]
        if e["k"] == "Return":
            if e["e"] is None:
                return pre
            return noret(tail(e["e"]), ret)
        if e["k"] == "Try" and not _escapes(e["e"]):
            return tail(try_match(e["e"], ret, noret(rest, ret) if rest or s["semi"] else [{"k": "Expr", "e": mkpath("ok__inl"), "semi": False}]))
        if e["k"] == "If" and not _escapes(e["cond"]):
            last = not rest and not s["semi"]
            th, el = list(e["then"]), _as_stmts(e["else"])
            if last:
                return tail(dict(e, then=noret(th, ret), **{"else": blk(noret(el, ret)) if e["else"] is not None else None}))
            return tail(dict(e, then=cont(th), **{"else": blk(cont(el))}))
        if e["k"] == "Match" and not _escapes(e["e"]) and not any(a["guard"] and _escapes(a["guard"]) for a in e["arms"]):
            last = not rest and not s["semi"]
            return tail(dict(e, arms=[dict(a, body=blk(noret(_as_stmts(a["body"]), ret) if last else cont(_as_stmts(a["body"])))) for a in e["arms"]]))
        if e["k"] == "Block" and not e.get("label"):
            return pre + cont(list(e["stmts"]))
        if e["k"] == "Call" and not rest and not s["semi"] and len(e["args"]) == 1 and e["args"][0]["k"] == "Try" and not _escapes(e["args"][0]["e"]) and e["f"]["k"] == "EPath":
            return tail(try_match(e["args"][0]["e"], ret, [{"k": "Expr", "e": dict(e, args=[mkpath("ok__inl")]), "semi": False}]))
        raise Unsupported("helper without contract has an early exit")
    return stmts


def tail_calls(stmts, out):
    """ids of the call nodes whose value is the function's value"""
    if not stmts:
        return
    s = stmts[-1]
    if s["k"] == "Expr" and (not s["semi"] or s["e"]["k"] == "Return"):
        tail_expr(s["e"], out)


def result_vars(body, ret):
    """variables that are the block's value, with the declared type of that value"""
    if not body or ret is None or body[-1]["k"] != "Expr" or body[-1]["semi"]:
        return {}
    e = body[-1]["e"]
    if e["k"] == "Call" and e["f"]["k"] == "EPath" and path_str(e["f"]["path"]) in ("Ok", "Some") and len(e["args"]) == 1 and ret["k"] == "Path":
        a = ret["segs"][-1].get("args")
        e, ret = e["args"][0], a[0] if isinstance(a, list) and a else None
    if e["k"] == "EPath" and len(e["path"]["segs"]) == 1 and ret is not None and ret["k"] == "Path" and ret["segs"][-1]["n"] == "Vec":
        return {path_str(e["path"]): ret}
    return {}


def tail_expr(e, out):
    if e is None:
        return
    if e["k"] in ("Call", "MethodCall"):
        out.add(id(e))
    elif e["k"] == "Return":
        tail_expr(e["e"], out)
    elif e["k"] == "Block" and not e.get("label"):
        tail_calls(e["stmts"], out)
    elif e["k"] == "If":
        tail_calls(e["then"], out)
        tail_expr(e["else"], out)
    elif e["k"] == "Match":
        for a in e["arms"]:
            tail_expr(a["body"], out)


def mkpath(n):
    return {"k": "EPath", "path": {"k": "Path", "segs": [{"n": n, "args": None}], "lead": False}}


def try_match(e, ret, body):
    if ret not in ("Option", "Result"):
        raise Unsupported("helper without contract has an early exit")
    ts = lambda n, p: {"k": "PTupleStruct", "path": mkpath(n)["path"], "elems": [p]}
    idp = lambda n: {"k": "PIdent", "name": n, "mut": False, "ref": False, "sub": None}
    blk = {"k": "Block", "stmts": body, "label": None}
    if ret == "Option":
        arms = [(ts("Some", idp("ok__inl")), blk), ({"k": "PWild"}, mkpath("None"))]
    else:
        arms = [(ts("Ok", idp("ok__inl")), blk),
                (ts("Err", idp("err__inl")), {"k": "Call", "f": mkpath("Err"), "args": [mkpath("err__inl")]})]
    return {"k": "Match", "e": e, "arms": [{"pat": p, "guard": None, "body": b, "line": 0} for p, b in arms]}


def ret_kind(sig):
    r = sig.get("ret")
    if r and r["k"] == "Path":
        n = r["segs"][-1]["n"]
        return "Option" if n == "Option" else "Result" if n.endswith("Result") else None
    return None


def subst_idents(n, m):
    """Rename single-segment paths / identifiers according to m (values are tree nodes or names)."""
    if isinstance(n, list):
        return [subst_idents(v, m) for v in n]
    if not isinstance(n, dict):
        return n
    if n.get("k") == "EPath" and len(n["path"]["segs"]) == 1 and n["path"]["segs"][0]["n"] in m:
        v = m[n["path"]["segs"][0]["n"]]
        if isinstance(v, str):
            q = json.loads(json.dumps(n))
            q["path"]["segs"][0]["n"] = v
            return q
        return v
    return {k: subst_idents(v, m) for k, v in n.items()}


def uses_name(n, name):
    return contains(n, lambda x: (x.get("k") == "EPath" and x["path"]["segs"][0]["n"] == name and len(x["path"]["segs"]) == 1)
                    or (x.get("k") == "Macro" and re.search(r"\b%s\b" % re.escape(name), x.get("text") or "") is not None))


# ---------------------------------------------------------------- types
class Tr:
    def __init__(self, unit):
        self.u = unit           # Unit: contract information
        self.n = 0
        self.loops = []         # loops met in the current function
        self.cur = None
        self.inline_stack = []
        self.lits = set()
        self.call_results = {}
        self.call_args = {}
        self.expect = None
        self.xb = {}            # search loops: what holds of the result until the break

    def fresh(self, base):
        self.n += 1
        return f"{base}_{self.n}"

    def ty(self, t):
        k = t["k"]
        if k == "Ref":
            life = (t["life"] + " ") if t.get("life") else ""
            return "&" + life + ("mut " if t["mut"] else "") + self.ty(t["of"])
        if k == "Slice":
            return f"Vec<{self.ty(t['of'])}>"
        if k == "Tuple":
            if not t["elems"]:
                return "()"
            return "(" + ", ".join(self.ty(x) for x in t["elems"]) + ("," if len(t["elems"]) == 1 else "") + ")"
        if k == "Infer":
            return "_"
        if k == "Path":
            out = []
            for s in t["segs"]:
                a = s["args"]
                if a is None:
                    out.append(s["n"])
                elif isinstance(a, dict):
                    raise Unsupported("Fn type")
                else:
                    out.append(s["n"] + "<" + ", ".join(x["name"] if x["k"] == "Life" else self.ty(x) for x in a) + ">")
            # std paths are flattened to the shim's names
            flat = out
            if t["segs"][0]["n"] in ("std", "core", "crate", "super", "self") and len(out) > 1:
                flat = out[-1:]
            while len(flat) > 1 and re.match(r"[a-z_]\w*$", flat[0]) and re.match(r"[A-Z]", flat[-1]):
                flat = flat[1:]
            if path_str(t) in ("fmt::Result", "std::fmt::Result"):
                return "FmtResult"
            if path_str(t).split("<")[0] in ("fmt::Formatter", "std::fmt::Formatter"):
                return "Formatter"
            r = "::".join(flat)
            return self.u.type_map.get(r, r)
        if k == "Dyn":
            return self.u.type_map.get(t["text"], t["text"])
        if k == "Verb":
            raise Unsupported("type " + t["text"])
        if k == "Never":
            return "!"
        raise Unsupported("type " + k)

    # ------------------------------------------------------------ patterns
    def pat(self, p):
        k = p["k"]
        if k == "PIdent":
            if p.get("sub"):
                raise Unsupported("@ pattern")
            return ("ref " if p["ref"] else "") + ("mut " if p["mut"] else "") + p["name"]
        if k == "PWild":
            return "_"
        if k == "PTuple":
            return "(" + ", ".join(self.pat(x) for x in p["elems"]) + ("," if len(p["elems"]) == 1 else "") + ")"
        if k == "PTupleStruct":
            return self.epath(p["path"]) + "(" + ", ".join(self.pat(x) for x in p["elems"]) + ")"
        if k == "PPath":
            return self.epath(p["path"])
        if k == "PStruct":
            fs = [f["name"] if f["short"] and f["pat"]["k"] == "PIdent" and not f["pat"]["mut"] and not f["pat"]["ref"]
                  else f"{f['name']}: {self.pat(f['pat'])}" for f in p["fields"]]
            if p["rest"]:
                fs.append("..")
            return self.epath(p["path"]) + " { " + ", ".join(fs) + " }"
        if k == "PLit":
            l = p["lit"]
            if l["k"] == "int":
                return l["v"] + l["suffix"]
            if l["k"] == "bool":
                return "true" if l["v"] else "false"
            if l["k"] == "char":
                return self.charlit(l["v"])
            raise Unsupported("literal pattern")
        if k == "POr":
            return " | ".join(self.pat(c) for c in p["cases"])
        if k == "PRef":
            return "&" + self.pat(p["pat"])
        if k == "PType":
            return self.pat(p["pat"])
        raise Unsupported("pattern " + k)

    def charlit(self, c):
        esc = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", "'": "\\'", "\0": "\\0"}
        return "'" + esc.get(c, c) + "'"

    def strlit(self, s):
        q = json.dumps(s, ensure_ascii=False).replace("\\b", "\\u{8}").replace("\\f", "\\u{c}")
        q = re.sub(r"\\u([0-9a-fA-F]{4})", r"\\u{\1}", q)
        self.lits.add(q)
        return f"litmod::lit({q})"

    # ------------------------------------------------------------ expressions
    def epath(self, p):
        segs = p["segs"]
        names = [s["n"] for s in segs]
        if len(names) > 1 and names[0] in ("std", "core", "crate", "super", "self"):
            keep = names[-1:] if not names[-2:-1] or not names[-2][0].isupper() else names[-2:]
            names = keep
            segs = segs[-len(keep):]
        while len(names) > 1 and names[0] in self.u.drop_mods:
            names = names[1:]; segs = segs[1:]
        out = []
        for s, n in zip(segs, names):
            if n == "Self" and self.self_ty:
                n = self.self_ty if len(names) > 1 or True else n
            if s["args"] and isinstance(s["args"], list):
                n += "::<" + ", ".join(self.ty(x) for x in s["args"]) + ">"
            out.append(n)
        r = "::".join(out)
        return self.u.path_map.get(r, r)

    self_ty = None

    def atom(self, e):
        s = self.ex(e)
        if e["k"] in ("Bin", "Un", "Cast", "ERef", "Closure", "Range", "If", "Match", "Block", "Assign") or s.startswith("{"):
            return "(" + s + ")"
        return s

    def stmts(self, body, tail_expect=None):
        """Translate a list of statements to text lines (a block's inside)."""
        out = []
        for i, s in enumerate(body):
            last = i == len(body) - 1
            if s["k"] == "Item":
                it = s["item"]
                if it["k"] == "Use":
                    continue
                if it["k"] == "Fn":
                    self.u.local_fns[it["sig"]["name"]] = it
                    continue
                raise Unsupported("nested item " + it["k"])
            if s["k"] == "Let":
                out.append(self.let(s))
                continue
            e = s["e"]
            if e["k"] == "MethodCall" and e["m"] in BUILDER:
                # X.a(..).b(..);  ->  X.a(..); X.b(..);
                root, links = self.builder_chain(e)
                if root["k"] == "EPath":
                    for l in links:
                        out.append(self.ex(dict(l, recv=root)) + ";")
                    continue
            if e["k"] == "Macro" and e["name"] in DROP_MACROS:
                if last and not s["semi"]:
                    out.append("()")
                continue
            if last and not s["semi"]:
                old, self.expect = self.expect, tail_expect
                t = self.ex(e)
                self.expect = old
                out.append(t)
            else:
                old, self.expect = self.expect, None
                t = self.ex(e)
                self.expect = old
                blocky = e["k"] in ("If", "Match", "While", "Loop", "For", "Block")
                if blocky and not s["semi"]:
                    out.append(t)
                else:
                    out.append(t + ";")
        return out

    def builder_chain(self, e):
        links = []
        x = e
        while x["k"] == "MethodCall" and x["m"] in BUILDER:
            links.append(x)
            x = x["recv"]
        links.reverse()
        return x, links

    def block(self, body, tail_expect=None):
        return "{\n" + "\n".join(self.stmts(body, tail_expect)) + "\n}"

    def let(self, s):
        p = s["pat"]
        ann = None
        if p["k"] == "PType":
            ann = p["ty"]
        if s["init"] is None:
            return f"let {self.pat(p)}" + (": " + self.ty(ann) if ann else "") + ";"
        i0 = s["init"]
        if ann is None and p["k"] == "PIdent" and p["name"] in self.var_types and i0["k"] in ("Call", "EArray", "Macro") \
                and (i0["k"] != "Call" or i0["f"]["k"] == "EPath" and path_str(i0["f"]["path"]) in ("Vec::new", "Vec::with_capacity")) \
                and (i0["k"] != "Macro" or i0["name"] == "vec"):
            ann = self.var_types[p["name"]]
        old, self.expect = self.expect, ann
        init = self.ex(s["init"])
        self.expect = old
        ip = p["pat"] if p["k"] == "PType" else p
        if ip["k"] == "PIdent":
            i0 = s["init"]
            if i0["k"] == "Call" and i0["f"]["k"] == "EPath":
                self.call_results.setdefault(path_str(i0["f"]["path"]).split("::")[-1], ip["name"])
            elif i0["k"] == "MethodCall":
                self.call_results.setdefault(i0["m"], ip["name"])
            if i0["k"] in ("Call", "MethodCall"):      # plain variables passed to the call
                nm = i0["m"] if i0["k"] == "MethodCall" else path_str(i0["f"]["path"]).split("::")[-1] if i0["f"]["k"] == "EPath" else None
                self.call_args.setdefault(nm, [path_str(a["path"]) if a["k"] == "EPath" else None for a in i0["args"]])
        if p["k"] in ("PIdent", "PType") and (p if p["k"] == "PIdent" else p["pat"]).get("mut"):
            nm = (p if p["k"] == "PIdent" else p["pat"])["name"]
            self.muts.append(nm)
        els = ""
        if s.get("else"):
            # let-else becomes a match
            names = pat_names(p)
            tup = names[0] if len(names) == 1 else "(" + ", ".join(names) + ")"
            return (f"let {tup} = match {init} {{ {self.pat(p)} => {tup}, _ => {self.ex(s['else'])} }};")
        t = self.pat(p)
        if t == "_":
            t = self.fresh("unused")
        if self.needs_split(p):
            pre, t2 = self.destruct(p, init)
            return pre
        ra = ""
        if ann is not None:
            try:
                ra = ": " + self.ty(ann)
            except Unsupported:
                ra = ""
        return f"let {t}{ra} = {init};"

    def needs_split(self, p):
        return contains(p, lambda x: x.get("k") == "PRef")

    def destruct(self, p, init):
        """let (i, &x) = e  ->  let t = e; let i = t.0; let x = *t.1;"""
        if p["k"] == "PType":
            p = p["pat"]
        if p["k"] == "PRef" and p["pat"]["k"] == "PIdent":
            return f"let {p['pat']['name']} = *({init});", None
        if p["k"] == "PTuple":
            t = self.fresh("tup")
            out = [f"let {t} = {init};"]
            for i, q in enumerate(p["elems"]):
                if q["k"] == "PWild":
                    continue
                if q["k"] == "PRef" and q["pat"]["k"] == "PIdent":
                    out.append(f"let {q['pat']['name']} = *{t}.{i};")
                elif q["k"] == "PTuple":
                    out.append(self.destruct(q, f"{t}.{i}")[0])
                else:
                    out.append(f"let {self.pat(q)} = {t}.{i};")
            return " ".join(out), None
        raise Unsupported("reference pattern")

    def bind(self, p, val):
        """text binding pattern p to the expression text val"""
        if p["k"] == "PWild":
            return f"let {self.fresh('unused')} = {val};"
        if p["k"] == "PType":
            p = p["pat"]
        if self.needs_split(p):
            return self.destruct(p, val)[0]
        return f"let {self.pat(p)} = {val};"

    def apply(self, clo, args, expect=None):
        """Inline application of a closure literal / function path to argument texts. Returns expression text."""
        if clo["k"] == "Closure":
            if has_try_or_return(clo["body"]):
                raise Unsupported("return or ? inside a closure")
            bs = " ".join(self.bind(p, a) for p, a in zip(clo["params"], args))
            old, self.expect = self.expect, expect
            b = self.ex(clo["body"])
            self.expect = old
            return "{ " + bs + " " + b + " }" if bs else b
        if clo["k"] == "EPath":
            nm = path_str(clo["path"])
            node = {"k": "Call", "f": clo, "args": [{"k": "RawText", "text": a} for a in args], "line": 0}
            return self.ex(node)
        raise Unsupported("call of a non-literal closure")

    def ex(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression " + e["k"] + " " + (e.get("text") or "")[:60])
        return m(e)

    def e_RawText(self, e):
        return e["text"]

    def e_EPath(self, e):
        return self.epath(e["path"])

    def e_Lit(self, e):
        l = e["lit"]
        if l["k"] == "str":
            return self.strlit(l["v"])
        if l["k"] == "char":
            return self.charlit(l["v"])
        if l["k"] == "int":
            return l["v"] + l["suffix"]
        if l["k"] == "bool":
            return "true" if l["v"] else "false"
        if l["k"] == "float":
            return f"float_lit({json.dumps(l['v'])})"
        raise Unsupported("literal " + l["k"])

    def e_Paren(self, e):
        return "(" + self.ex(e["e"]) + ")"

    def e_Bin(self, e):
        op = e["op"]
        l, r = self.atom(e["l"]), self.atom(e["r"])
        if e["l"]["k"] == "Field" and e["l"]["name"] in self.u.float_fields or e["r"]["k"] == "Field" and e["r"]["name"] in self.u.float_fields:
            # floating-point arithmetic is an uninterpreted operation
            nm = {"+": "f_add", "-": "f_sub", "*": "f_mul", "/": "f_div"}.get(op.rstrip("="))
            if nm is None:
                raise Unsupported("float comparison")
            return f"{l} = {nm}({l}, {r})" if op.endswith("=") else f"{nm}({l}, {r})"
        if op in ("==", "!="):
            s = self.eq(e["l"], e["r"], l, r)
            return s if op == "==" else f"!({s})"
        return f"{l} {op} {r}"

    def eq(self, le, re_, l, r):
        # primitive comparisons stay verbatim, anything else goes through the equality shim
        def prim(x):
            if x["k"] == "Lit":
                return x["lit"]["k"] in ("int", "bool", "char")
            if x["k"] == "MethodCall":
                return x["m"] in ("len", "count") or False
            if x["k"] == "Un" and x["op"] == "*":
                return False
            if x["k"] == "Un":
                return prim(x["e"])
            if x["k"] == "Bin":
                return True
            if x["k"] == "Paren":
                return prim(x["e"])
            return False
        if prim(le) or prim(re_):
            return f"{l} == {r}"
        return f"x_eq(&({l}), &({r}))"

    def e_Un(self, e):
        if e["op"] == "-" and e["e"]["k"] != "Lit":
            return f"x_neg({self.ex(e['e'])})"
        return e["op"] + self.atom(e["e"])

    def e_ERef(self, e):
        if e["e"]["k"] == "Index" and e["e"]["idx"]["k"] == "Range":
            return "&" + self.slice(e["e"])
        return "&" + ("mut " if e["mut"] else "") + self.atom(e["e"])

    def slice(self, e):
        r = e["idx"]
        b = self.atom(e["base"])
        if r["incl"]:
            raise Unsupported("inclusive slice")
        if r["a"] is None and r["b"] is None:
            return f"{b}.x_slice_all()"
        if r["a"] is None:
            return f"{b}.x_slice_to({self.ex(r['b'])})"
        if r["b"] is None:
            return f"{b}.x_slice_from({self.ex(r['a'])})"
        return f"{b}.x_slice({self.ex(r['a'])}, {self.ex(r['b'])})"

    def e_Index(self, e):
        if e["idx"]["k"] == "Range":
            return self.slice(e)
        return f"{self.atom(e['base'])}[{self.ex(e['idx'])}]"

    def e_Field(self, e):
        return f"{self.atom(e['base'])}.{e['name']}"

    def e_Cast(self, e):
        if '"Dyn"' in json.dumps(e["ty"]):           # the coercion to a trait object
            return self.ex(e["e"])
        return f"{self.atom(e['e'])} as {self.ty(e['ty'])}"

    def e_Try(self, e):
        c = e["e"]
        if c["k"] == "Call" and c["f"]["k"] == "EPath" and any(path_str(c["f"]["path"]).endswith(x) for x in self.u.from_fns):
            # the error is converted on the way out: say so, as the verifier's `?` says nothing about it
            return f"(match {self.ex(c)} {{ Ok(ok__try) => ok__try, Err(er__try) => return Err(er__try.x_into()) }})"
        return self.atom(e["e"]) + "?"

    def e_ETuple(self, e):
        return "(" + ", ".join(self.ex(x) for x in e["elems"]) + ("," if len(e["elems"]) == 1 else "") + ")"

    def e_EArray(self, e):
        return "vec![" + ", ".join(self.ex(x) for x in e["elems"]) + "]"

    def e_Struct(self, e):
        if e["rest"]:
            raise Unsupported("struct update")
        fs = []
        for f in e["fields"]:
            fs.append(f"{f['name']}: {self.ex(f['e'])}")
        return self.epath(e["path"]) + " { " + ", ".join(fs) + " }"

    def e_Block(self, e):
        if e.get("label"):
            raise Unsupported("labelled block")
        return self.block(e["stmts"], self.expect)

    def e_Return(self, e):
        if e["e"] is None:
            return "return"
        old, self.expect = self.expect, self.ret_ty
        t = self.ex(e["e"])
        self.expect = old
        if self.ret_alias:
            raise Unsupported("return inside an inlined helper")
        if self.exit_text:
            return f"{{ let {self.ret_name} = {t};\n{self.exit_text}\nreturn {self.ret_name}; }}"
        return "return " + t

    exit_text = ""
    ret_name = "r"
    ret_ty = None
    ret_alias = None
    tail_nodes = frozenset()
    var_types = {}

    def e_Break(self, e):
        if e["e"] is not None:
            raise Unsupported("break with value")
        return "break" + (" " + e["label"] if e.get("label") else "")

    def e_Continue(self, e):
        return "continue" + (" " + e["label"] if e.get("label") else "")

    def e_Assign(self, e):
        return f"{self.ex(e['l'])} = {self.ex(e['r'])}"

    def e_If(self, e):
        c = e["cond"]
        if contains(c, lambda x: x.get("k") == "ELet", is_closure):
            # if let P = e  (no chains)
            if c["k"] == "ELet" and c["pat"]["k"] == "PSlice":
                v = self.fresh("scrut")
                old, self.expect = self.expect, None
                sc = self.ex(c["e"])
                self.expect = old
                cond, binds, rest = self.slice_bind(v, c["pat"])
                eltext = ""
                if e["else"]:
                    eltext = self.ex(e["else"])
                    eltext = " else " + (eltext if eltext.startswith("{") else "{ " + eltext + " }")
                t = self.block(e["then"], self.expect)
                if rest:
                    t = "{ " + " ".join(rest) + " " + t + " }"
                for x, tx in reversed(binds):
                    t = "{ if let " + self.pat(x) + " = " + tx + " " + t + eltext + " }"
                return f"{{ let {v} = {sc}; if {cond} {t}{eltext} }}"
            if c["k"] == "ELet":
                pt = c["pat"]
                if contains(pt, lambda x: x.get("k") == "PLit" and x["lit"]["k"] == "str"):
                    raise Unsupported("string pattern in if let")
                old, self.expect = self.expect, None
                sc = self.ex(c["e"])
                if contains(pt, lambda x: x.get("k") == "PIdent" and x.get("ref")):
                    pt, sc = self.unref(pt), "&" + ("mut " if contains(pt, lambda x: x.get("k") == "PIdent" and x.get("ref") and x.get("mut")) else "") + self.atom(c["e"])
                self.expect = old
                t = f"if let {self.pat(pt)} = {sc} {self.block(e['then'], self.expect)}"
            else:
                return self.iflet_chain(e)
        else:
            old, self.expect = self.expect, None
            ct = self.ex(c)
            self.expect = old
            t = f"if {ct} {self.block(e['then'], self.expect)}"
        if e["else"]:
            el = self.ex(e["else"])
            if e["else"]["k"] not in ("If", "Block"):
                el = "{ " + el + " }"
            t += " else " + el
        return t

    def unref(self, p):
        """Some(ref x) matched on a place = Some(x) matched on a reference to it (only when every binding is `ref`)"""
        if contains(p, lambda x: x.get("k") == "PIdent" and not x.get("ref")):
            raise Unsupported("mixed ref pattern")
        def go(n):
            if isinstance(n, list):
                return [go(x) for x in n]
            if not isinstance(n, dict):
                return n
            n = {k: go(v) for k, v in n.items()}
            if n.get("k") == "PIdent":
                n["ref"] = False
                n["mut"] = False
            return n
        return go(p)

    def iflet_chain(self, e):
        """if a && let P = b { X } [else { Y }]: only when Y is empty or duplicable"""
        c = e["cond"]
        conds = []
        def flat(x):
            if x["k"] == "Bin" and x["op"] == "&&":
                flat(x["l"]); flat(x["r"])
            else:
                conds.append(x)
        flat(c)
        els = e["else"]
        t = self.block(e["then"], self.expect)
        eltext = self.ex(els) if els else None
        if eltext is not None and not eltext.startswith("{"):
            eltext = "{ " + eltext + " }"
        for x in reversed(conds):
            if x["k"] == "ELet":
                h = f"if let {self.pat(x['pat'])} = {self.ex(x['e'])}"
            else:
                h = f"if {self.ex(x)}"
            t = "{ " + h + " " + t + (" else " + eltext if eltext else "") + " }"
        return t

    def slice_bind(self, v, p):
        """a slice pattern on the slice variable v: (condition on the length, [(pattern, element text)], {name of the rest: text})"""
        el = p["elems"]
        rest = [i for i, x in enumerate(el) if x["k"] == "PRest" or (x["k"] == "PIdent" and (x.get("sub") or {}).get("k") == "PRest")]
        if len(rest) > 1 or (rest and rest[0] != len(el) - 1):
            raise Unsupported("slice pattern")
        n = len(el) - len(rest)
        cond = f"{v}.len() >= {n}" if rest else f"{v}.len() == {n}"
        binds = [(x, f"&{v}[{i}]") for i, x in enumerate(el[:n])]
        name = el[rest[0]].get("name") if rest else None
        return cond, binds, ([f"let {name} = &{v}.x_slice_from({n});"] if name else [])

    def slice_match(self, e):
        """match on slice patterns: decided arm by arm"""
        old, self.expect = self.expect, None
        scr = self.ex(e["e"])
        self.expect = old
        v = self.fresh("scrut")
        out, closed = f"{{ let {v} = {scr};\n", False
        arms = e["arms"]
        if any(a["guard"] for a in arms):
            raise Unsupported("guarded slice pattern")
        for i, a in enumerate(arms):
            p = a["pat"]
            body = self.ex(a["body"])
            if p["k"] == "PWild":
                out += f"{{ {body} }}"; closed = True; break
            if p["k"] != "PSlice":
                raise Unsupported("slice match arm")
            cond, binds, rest = self.slice_bind(v, p)
            if any(x["k"] not in ("PIdent", "PWild") for x, _ in binds):
                raise Unsupported("refutable element of a slice pattern")
            lets = " ".join([f"let {self.pat(x)} = {t};" for x, t in binds if x["k"] == "PIdent"] + rest)
            if i == len(arms) - 1:      # the patterns of a match are exhaustive
                out += f"{{ {lets} {body} }}"; closed = True; break
            out += f"if {cond} {{ {lets} {body} }} else "
        if not closed:
            raise Unsupported("open slice match")
        return out + " }"

    def e_Match(self, e):
        arms = e["arms"]
        if any(a["pat"]["k"] == "PSlice" for a in arms):
            return self.slice_match(e)
        isstr = lambda p: contains(p, lambda x: x.get("k") == "PLit" and x["lit"]["k"] == "str")
        old, self.expect = self.expect, None
        scr = self.ex(e["e"])
        self.expect = old
        if any(isstr(a["pat"]) for a in arms):
            v = self.fresh("scrut")
            out = f"{{ let {v} = {scr};\n"
            closed = False
            for a in arms:
                p = a["pat"]
                cases = p["cases"] if p["k"] == "POr" else [p]
                body = self.ex(a["body"])
                g = f" && ({self.ex(a['guard'])})" if a["guard"] else ""
                if all(c["k"] == "PLit" for c in cases):
                    cond = " || ".join(f"x_eq(&{v}, &{self.strlit(c['lit']['v'])})" for c in cases)
                    out += f"if ({cond}){g} {{ {body} }} else "
                elif p["k"] == "PWild" and not g:
                    out += f"{{ {body} }}"; closed = True; break
                elif p["k"] == "PIdent" and not g:
                    out += f"{{ let {p['name']} = {v}; {body} }}"; closed = True; break
                else:
                    raise Unsupported("string match arm")
            if not closed:
                raise Unsupported("open string match")
            return out + " }"
        out = [f"match {scr} {{"]
        for a in arms:
            p = a["pat"]
            ps = self.pat(p)
            g = ""
            if a["guard"]:
                g = " if " + self.ex(a["guard"])
            b = self.ex(a["body"])
            if a["body"]["k"] == "Macro" and a["body"]["name"] in DROP_MACROS:
                b = "()"
            if not b.startswith("{"):
                b = "{ " + b + " }"
            out.append(f"{ps}{g} => {b}")
        out.append("}")
        return "\n".join(out)

    # ---------------------------------------------------------------- macros
    def e_Macro(self, e):
        n = e["name"]
        if n in DROP_MACROS:
            return "()"
        if n == "vec":
            if e["extra"] and "repeat" in e["extra"]:
                a, b = e["extra"]["repeat"]
                return f"x_from_elem({self.ex(a)}, {self.ex(b)})"
            if not e["args"]:
                return "Vec::new()"
            return "vec![" + ", ".join(self.ex(x) for x in e["args"]) + "]"
        if n == "matches":
            x = e["extra"]
            if not x:
                raise Unsupported("matches!")
            node = {"k": "Match", "e": x["e"], "line": e["line"], "arms": [
                {"pat": x["p"], "guard": x["g"], "body": {"k": "RawText", "text": "true"}},
                {"pat": {"k": "PWild"}, "guard": None, "body": {"k": "RawText", "text": "false"}}]}
            return self.ex(node)
        if n == "format":
            return self.fmt(e["args"])
        if n == "write":
            return f"({self.ex(e['args'][0])}).x_write({self.fmt(e['args'][1:])})"
        if n in ("unreachable", "panic", "todo", "unimplemented"):
            return "x_unreachable()"
        raise Unsupported("macro " + n)

    def fmt(self, args):
        if not args or args[0]["k"] != "Lit":
            raise Unsupported("format!")
        f = args[0]["lit"]["v"]
        pos = []
        named = {}
        for a in args[1:]:
            if a["k"] == "Assign":
                named[a["l"]["path"]["segs"][0]["n"]] = self.ex(a["r"])
            else:
                pos.append(self.ex(a))
        parts = []
        cur = ""
        i = 0
        nxt = 0
        while i < len(f):
            c = f[i]
            if c == "{" and f[i:i + 2] == "{{":
                cur += "{"; i += 2; continue
            if c == "}" and f[i:i + 2] == "}}":
                cur += "}"; i += 2; continue
            if c == "{":
                j = f.index("}", i)
                spec = f[i + 1:j]
                name, _, sp = spec.partition(":")
                if name == "":
                    v = pos[nxt]; nxt += 1
                elif name.isdigit():
                    v = pos[int(name)]
                else:
                    v = named.get(name, name)
                if cur:
                    parts.append(self.strlit(cur) + ".x_disp()"); cur = ""
                if sp == "":
                    parts.append(f"({v}).x_disp()")
                else:
                    parts.append(f"x_fmt({self.strlit(sp)}, &({v}))")
                i = j + 1
                continue
            cur += c
            i += 1
        if cur:
            parts.append(self.strlit(cur) + ".x_disp()")
        if not parts:
            return self.strlit("") + ".x_disp()"
        t = parts[0]
        for p in parts[1:]:
            t = f"x_cat({t}, {p})"
        return t

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        f = e["f"]
        if f["k"] != "EPath":
            raise Unsupported("call of expression")
        p = f["path"]
        name = path_str(p)
        # locally bound closure parameter?
        if name in self.closure_params:
            return self.apply(self.closure_params[name], [self.ex(a) for a in e["args"]])
        h = self.u.call_hooks.get(name)
        if h:
            return h(self, e)
        if name in ("i32::from", "usize::from") and len(e["args"]) == 1 and e["args"][0]["k"] in ("Un", "Bin", "EPath"):
            if name == "i32::from":
                return f"x_i32_of_bool({self.ex(e['args'][0])})"
        if name.split("::")[-1] in self.u.local_fns and len(p["segs"]) <= 2:
            r = self.maybe_inline(name, e)
            if r is not None:
                return r
        if name in ("thread::spawn", "std::thread::spawn") and len(e["args"]) == 1 and is_closure(e["args"][0]) and not e["args"][0]["params"]:
            # the thread's body is evaluated here; its result is only available from the handle
            c = e["args"][0]
            if has_try_or_return(c["body"]):
                raise Unsupported("return or ? inside a thread closure")
            v = self.fresh("thr")
            old, self.expect = self.expect, None
            b = self.ex(c["body"])
            self.expect = old
            return f"{{ let {v} = {b}; x_spawn({v}, {self.u.effect_arg}) }}"
        old = self.expect
        xa = old["segs"][-1].get("args") if old is not None and old["k"] == "Path" and old["segs"][-1]["n"] != "Vec" else None
        xa = xa if isinstance(xa, list) else []
        self.expect = {"Ok": 0, "Some": 0, "Err": 1}.get(name)
        self.expect = xa[self.expect] if self.expect is not None and self.expect < len(xa) else None
        try:
            args = [self.ex(a) for a in e["args"]]
        finally:
            self.expect = old
        fn = self.epath(p)
        if name in ("process::exit", "std::process::exit"):
            fn = "x_exit"
        if fn in self.u.effect_fns:
            args.append(self.u.effect_arg)
        ga = self.u.ghost_args.get(fn)
        if ga:
            args += ga
        return f"{fn}(" + ", ".join(args) + ")"

    closure_params = {}
    result_chain = set()

    def maybe_inline(self, name, e):
        """Helpers of the same file with no contract are inlined (fresh parameter bindings)."""
        key = name
        if key.startswith("Self::") and self.self_ty:
            key = self.self_ty + key[4:]
        fn = self.u.lookup_fn(key)
        if fn is None:
            return None
        if self.u.has_contract(key):
            # higher-order helper: monomorphised per closure argument
            hof = self.u.hof_params(fn)
            if hof:
                return self.mono(key, fn, hof, e)
            return None
        return self.inline(key, fn, e)

    def inline(self, key, fn, e, recv=None):
        if key in self.inline_stack:
            raise Unsupported("recursive helper without contract " + key)
        in_tail = id(e) in self.tail_nodes and not self.inline_stack
        if has_try_or_return(fn["body"]) and not in_tail:
            try:
                fn = dict(fn, body=noret(fn["body"], ret_kind(fn["sig"])))
            except Unsupported as x:
                raise Unsupported(str(x) + ": " + key)
        self.inline_stack.append(key)
        ins = fn["sig"]["inputs"]
        hof = self.u.hof_params(fn)
        actual = list(e["args"])
        binds = []
        saved = dict(self.closure_params)
        vals = []
        if ins and ins[0].get("self"):
            r = ("&" if ins[0]["ref"] else "") + self.atom(recv)
            # `self` cannot be rebound: rename
            vals.append(("self__inl", r))
            ins = ins[1:]
        cl = {}
        for i, a in zip(ins, actual):
            pn = i["pat"]["name"] if i["pat"]["k"] == "PIdent" else None
            if pn is None:
                raise Unsupported("pattern parameter")
            if pn in hof:
                cl[pn] = a
            else:
                vals.append((("mut " if i["pat"]["mut"] else "") + pn, self.ex(a), i["ty"]))
        # evaluate all arguments first, then bind (parameter names may clash with argument names)
        tmps = []
        out = []
        for v in vals:
            t = self.fresh("arg")
            out.append(f"let {t} = {v[1]};")
            tmps.append(t)
        for v, t in zip(vals, tmps):
            ann = ""
            if len(v) > 2:
                try:
                    if not fn["sig"]["generics"]["params"]:
                        ann = ": " + self.ty(v[2])
                except Unsupported:
                    pass
            out.append(f"let {v[0]}{ann} = {t};")
        self.closure_params.update(cl)
        oldret, oldm = self.ret_alias, list(self.muts)
        self.ret_alias = None if in_tail else key
        body = fn["body"]
        if recv is not None:
            body = subst_idents(body, {"self": "self__inl"})
        olde, oldv = self.expect, self.var_types
        self.var_types = result_vars(body, fn["sig"]["ret"])
        b = self.block(body, fn["sig"]["ret"])
        self.expect, self.var_types = olde, oldv
        self.ret_alias = oldret
        self.closure_params = saved
        self.inline_stack.pop()
        self.u.inlined.add(key)
        return "{ " + " ".join(out) + " " + b + " }"

    def mono(self, key, fn, hof, e):
        ins = fn["sig"]["inputs"]
        args = []
        tag = []
        clo = {}
        for i, a in zip(ins, e["args"]):
            pn = i["pat"]["name"]
            if pn in hof:
                if a["k"] == "EPath" and path_str(a["path"]) in self.closure_params:
                    a = self.closure_params[path_str(a["path"])]
                if a["k"] != "EPath":
                    raise Unsupported("closure literal passed to contracted function")
                clo[pn] = a
                tag.append(path_str(a["path"]).replace("::", "_"))
            else:
                args.append(self.ex(a))
        nm = key.replace("::", "_") + "__" + "_".join(tag)
        self.u.need_mono(key, nm, clo)
        return f"{nm}(" + ", ".join(args) + ")"

    def e_Closure(self, e):
        raise Unsupported("closure value")

    def e_MethodCall(self, e):
        m = e["m"]
        if e["recv"]["k"] == "MethodCall" and e["recv"]["m"] in BUILDER and m in BUILDER_END:
            root, links = self.builder_chain(e["recv"])
            if root["k"] == "EPath":
                return "{ " + " ".join(self.ex(dict(l, recv=root)) + ";" for l in links) + " " + self.ex(dict(e, recv=root)) + " }"
            t = self.fresh("cmd")
            r = {"k": "EPath", "path": {"segs": [{"n": t, "args": None}]}}
            return "{ let mut " + t + " = " + self.ex(root) + "; " + " ".join(self.ex(dict(l, recv=r)) + ";" for l in links) + " " + self.ex(dict(e, recv=r)) + " }"
        # X.entry(K).or_default().push(V) and friends
        r = e["recv"]
        h = self.u.method_hooks.get(m)
        if h:
            t = h(self, e)
            if t is not None:
                return t
        if m == "expect" and len(e["args"]) == 1:
            return f"{self.atom(r)}.unwrap()"
        if r["k"] == "MethodCall" and r["recv"]["k"] == "MethodCall" and r["recv"]["m"] == "entry" and r["m"] in ("or_default", "or_insert_with", "or_insert"):
            if m == "push" and (r["m"] == "or_default" or (r["m"] == "or_insert_with" and r["args"][0].get("k") == "EPath")):
                base = self.atom(r["recv"]["recv"])
                kx = self.fresh("key")
                return f"{{ let {kx} = {self.ex(r['recv']['args'][0])}; {base}.x_entry_push({kx}, {self.ex(e['args'][0])}); }}"
        if m in ("or_insert", "or_default") and r["k"] == "MethodCall" and r["m"] == "entry":
            v = self.ex(e["args"][0]) if m == "or_insert" else "Default::default()"
            return f"{self.atom(r['recv'])}.x_{m}({self.ex(r['args'][0])}" + (f", {v})" if m == "or_insert" else ")")
        if m == "extend" and len(e["args"]) == 1 and r["k"] in ("EPath", "Field"):
            a = self.chain_src(e["args"][0])
            if a[1] and (a[0]["k"] == "Range" or a[0]["k"] == "Paren" or self.is_source(a[0])):
                tgt = self.ex(r)
                return "{ " + self.chain_loops(a[0], a[1], lambda x: f"{tgt}.push({x});", [tgt], e) + " }"
        ch = self.chain_of(e)
        if ch:
            return self.chain_expr(e, ch)
        # method defined in this file without a contract -> inline
        key = self.u.resolve_method(self, e)
        if key:
            fn = self.u.lookup_fn(key)
            if fn is not None and not self.u.has_contract(key):
                return self.inline(key, fn, e, recv=r)
            args = [self.ex(a) for a in e["args"]]
            if key in self.u.effect_fns:
                args.append(self.u.effect_arg)
            return f"{self.atom(r)}.{m}(" + ", ".join(args) + ")"
        t = self.closure_method(e)
        if t is not None:
            return t
        if m == "parse" and e["turbo"]:
            t = self.ty(e["turbo"][0])
            return f"{t}::from_str({self.addr(r)})" if f"{t}::from_str" in self.u.fns else f"{t}::x_from_str({self.addr(r)})"
        if m == "join" and not e["args"]:
            return f"{self.atom(r)}.join_thread({self.u.effect_arg})"
        if m in ("into", "as_bytes_"):
            if m == "into" and r["k"] == "Lit":
                return f"{self.atom(r)}.x_to_string()"
            return f"{self.atom(r)}.x_into()"
        args = [self.ex(a) for a in e["args"]]
        if m in RENAME:
            m = "x_" + m
        if ("." + e["m"]) in self.u.effect_fns:
            args.append(self.u.effect_arg)
        tb = ""
        if e["turbo"]:
            if m not in self.u.turbo:
                raise Unsupported("turbofish on " + m)
            tb = "::<" + ", ".join(self.ty(t) for t in e["turbo"]) + ">"
        return f"{self.atom(r)}.{m}{tb}(" + ", ".join(args) + ")"

    def addr(self, r):
        return "&" + self.atom(r) if False else f"({self.ex(r)}).x_as_str()"

    def closure_method(self, e):
        """Option/Result combinators with a closure (or function) argument, inlined as a match."""
        m = e["m"]
        a = e["args"]
        if not a:
            return None
        f = a[-1]
        if m == "then_some" and len(a) == 1:
            c, v = self.fresh("c"), self.fresh("v")
            return f"{{ let {c} = {self.ex(e['recv'])}; let {v} = {self.ex(f)}; if {c} {{ Some({v}) }} else {{ None }} }}"
        if f["k"] not in ("Closure", "EPath"):
            return None
        if m == "then" and f["k"] == "Closure" and not f["params"]:
            return f"(if {self.ex(e['recv'])} {{ Some({self.apply(f, [])}) }} else {{ None }})"
        v = self.fresh("v")
        # a chain that ends in a combinator taking the error is a chain over a Result
        if m == "map_err" or (m == "unwrap_or_else" and f["k"] == "Closure" and len(f["params"]) == 1):
            self.result_chain.add(id(e["recv"]))
        c = e["recv"]
        if c["k"] == "Call" and c["f"]["k"] == "EPath" and any(path_str(c["f"]["path"]).endswith(x) for x in self.u.from_fns):
            self.result_chain.add(id(e))
        if id(e) in self.result_chain and m in ("and_then", "map", "map_err", "or_else"):
            self.result_chain.add(id(e["recv"]))
            if m == "and_then":
                return f"(match {self.ex(e['recv'])} {{ Ok({v}) => {{ {self.apply(f, [v])} }}, Err({v}) => Err({v}) }})"
            if m == "map":
                return f"(match {self.ex(e['recv'])} {{ Ok({v}) => Ok({self.apply(f, [v])}), Err({v}) => Err({v}) }})"
            if m == "or_else":
                return f"(match {self.ex(e['recv'])} {{ Ok({v}) => Ok({v}), Err({v}) => {{ {self.apply(f, [v])} }} }})"
        if m == "and_then" and f["k"] in ("Closure", "EPath"):
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ {self.apply(f, [v])} }}, None => None }})"
        if m == "map":
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => Some({self.apply(f, [v])}), None => None }})"
        if m == "map_err":
            return f"(match {self.ex(e['recv'])} {{ Ok({v}) => Ok({v}), Err({v}) => Err({self.apply(f, [v])}) }})"
        if m == "unwrap_or_else" and f["k"] == "Closure":
            if len(f["params"]) == 0:
                return f"(match {self.ex(e['recv'])} {{ Some({v}) => {v}, None => {{ {self.apply(f, [])} }} }})"
            return f"(match {self.ex(e['recv'])} {{ Ok({v}) => {v}, Err({v}) => {{ {self.apply(f, [v])} }} }})"
        if m == "is_none_or":
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ {self.apply(f, [v])} }}, None => true }})"
        if m == "is_some_and":
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ {self.apply(f, [v])} }}, None => false }})"
        if m == "map_or" and len(a) == 2:
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ {self.apply(f, [v])} }}, None => {self.ex(a[0])} }})"
        if m == "map_or_else" and len(a) == 2:
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ {self.apply(f, [v])} }}, None => {self.apply(a[0], [])} }})"
        if m == "ok_or_else":
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => Ok({v}), None => Err({self.apply(f, [])}) }})"
        if m == "or_else" and f["k"] == "Closure" and len(f["params"]) == 0:
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => Some({v}), None => {{ {self.apply(f, [])} }} }})"
        if m == "filter":
            return f"(match {self.ex(e['recv'])} {{ Some({v}) => {{ if {self.apply(f, ['&' + v])} {{ Some({v}) }} else {{ None }} }}, None => None }})"
        if m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key") and f["k"] == "Closure" and len(f["params"]) == 1 and f["params"][0]["k"] == "PIdent":
            return self.sort_key(e["recv"], f["params"][0]["name"], f["body"])
        if m in ("sort_by", "sort_unstable_by") and f["k"] == "Closure" and len(f["params"]) == 2 and all(p["k"] == "PIdent" for p in f["params"]):
            # `|a, b| KEY(a).cmp(&KEY(b))`
            p1, p2 = (p["name"] for p in f["params"])
            b = f["body"]
            if b["k"] == "MethodCall" and b["m"] == "cmp" and len(b["args"]) == 1 and b["args"][0]["k"] == "ERef":
                if self.proj(b["recv"], p1) and self.proj(b["recv"], p1) == self.proj(b["args"][0]["e"], p2):
                    return self.sort_key(e["recv"], p1, b["recv"])
            raise Unsupported(m)
        if m == "retain" and f["k"] == "Closure":
            return self.retain(e, f)
        return None

    def sort_key(self, recv, param, body):
        """Sorting by a plain projection of the element."""
        pr = self.proj(body, param)
        if not pr:
            raise Unsupported("sort key")
        t = self.u.sort_keys.get(pr[1:])
        if not t:
            raise Unsupported("sort key")
        return f"{self.atom(recv)}.x_sort_key(Ghost(|k: {t}| k{pr} as int))"

    def proj(self, b, param):
        path = ""
        while b["k"] == "Field":
            path, b = "." + b["name"] + path, b["base"]
        return path if b["k"] == "EPath" and self.epath(b["path"]) == param else ""

    def retain(self, e, f):
        recv = self.ex(e["recv"])
        it, src, acc = self.fresh("it"), self.fresh("src"), self.fresh("acc")
        x = self.fresh("x")
        pre, arg = "", "&" + x
        if f["params"] and f["params"][0]["k"] == "PType":
            v = self.fresh("ref")
            pre, arg = f"let {v}: {self.ty(f['params'][0]['ty'])} = &{x}; ", v
        body = f"{pre}let keep = {self.apply(f, [arg])}; if keep {{ {acc}.push({x}); }}"
        loop = self.loop_text(e, it, f"x_take_vec(&mut {recv})", x, body, [acc], owned=True)
        return f"{{ let mut {acc} = Vec::new();\n{loop}\nx_put_vec(&mut {recv}, {acc}); }}"

    # ---------------------------------------------------------------- iterator chains
    def chain_of(self, e):
        """[(method, node)...] outermost last, plus the source expression, if e is an iterator chain."""
        links = []
        x = e
        while x["k"] == "MethodCall" and (x["m"] in ADAPTERS or x["m"] in TERMINALS):
            links.append(x)
            x = x["recv"]
        if not links:
            return None
        links.reverse()
        if self.is_source(x):
            if links[-1]["m"] not in TERMINALS and self.chain_mode == "expr":
                # adapters without a terminal: only legal where the caller consumes it (for, extend, ...)
                return {"src": x, "links": links, "terminal": None}
            t = links[-1] if links[-1]["m"] in TERMINALS else None
            return {"src": x, "links": links[:-1] if t else links, "terminal": t}
        return None

    chain_mode = "expr"

    def is_source(self, x):
        if x["k"] == "Paren":
            return x["e"]["k"] == "Range"
        if x["k"] == "Range":
            return True
        if x["k"] == "MethodCall" and x["m"] in SOURCES:
            return True
        if x["k"] == "Call" and x["f"]["k"] == "EPath" and path_str(x["f"]["path"]) in self.u.iter_fns:
            return True
        return False

    def source_text(self, x):
        if x["k"] == "Paren":
            return self.source_text(x["e"])
        if x["k"] == "Range":
            if x["a"] is None or x["b"] is None:
                raise Unsupported("open range")
            return f"range_it{'_incl' if x['incl'] else ''}({self.ex(x['a'])}, {self.ex(x['b'])})"
        if x["k"] == "MethodCall" and x["m"] in SOURCES:
            a = [self.ex(y) for y in x["args"]]
            return f"{self.atom(x['recv'])}.it_{x['m']}(" + ", ".join(a) + ")"
        return f"({self.ex(x)}).it_into_iter()"

    def chain_expr(self, e, ch):
        t = ch["terminal"]
        if t is None:
            raise Unsupported("iterator value")
        m = t["m"]
        links = ch["links"]
        exp = self.expect
        if m == "collect":
            target = None
            if t["turbo"]:
                target = t["turbo"][0]
            elif exp is not None:
                target = exp
            tn = target["segs"][-1]["n"] if target is not None and target["k"] == "Path" else "Vec"
            acc = self.fresh("acc")
            if tn == "Vec":
                ann = ""
                if target is not None:
                    try:
                        ann = ": " + self.ty(target)
                    except Unsupported:
                        ann = ""
                    if "_" in re.findall(r"\b_\b", ann) or self.self_generic(ann):
                        ann = ann
                body = lambda x: f"{acc}.push({x});"
                loops = self.chain_loops(ch["src"], links, body, [acc], e)
                return f"{{ let mut {acc}{ann} = Vec::new();\n{loops}\n{acc} }}"
            if tn in ("HashSet", "BTreeSet"):
                body = lambda x: f"{acc}.x_insert({x});"
                loops = self.chain_loops(ch["src"], links, body, [acc], e)
                return f"{{ let mut {acc}: {self.ty(target)} = {tn}::new();\n{loops}\n{acc} }}"
            if tn in ("HashMap", "BTreeMap"):
                body = lambda x: f"let kv = {x}; {acc}.x_insert(kv.0, kv.1);"
                loops = self.chain_loops(ch["src"], links, body, [acc], e)
                return f"{{ let mut {acc}: {self.ty(target)} = {tn}::new();\n{loops}\n{acc} }}"
            if tn in ("Option", "Result") and isinstance(target["segs"][-1].get("args"), list) and target["segs"][-1]["args"]:
                # the items until the first None/Err
                inner = target["segs"][-1]["args"][0]
                if inner["k"] != "Path" or inner["segs"][-1]["n"] != "Vec" or any(l["m"] in ("flat_map", "flatten", "chain") for l in links):
                    raise Unsupported("collect into " + tn)
                bad, v, er = self.fresh("bad"), self.fresh("v"), self.fresh("e")
                if tn == "Option":
                    self.xb[bad] = f"!{bad}"
                    body = lambda x: f"match {x} {{ Some({v}) => {{ {acc}.push({v}); }} None => {{ {bad} = true; break; }} }}"
                    init, res = f"{bad} = false", f"if {bad} {{ None }} else {{ Some({acc}) }}"
                else:
                    self.xb[bad] = f"{bad} is None"
                    body = lambda x: f"match {x} {{ Ok({v}) => {{ {acc}.push({v}); }} Err({er}) => {{ {bad} = Some({er}); break; }} }}"
                    init, res = f"{bad} = None", f"match {bad} {{ Some({er}) => Err({er}), None => Ok({acc}) }}"
                loops = self.chain_loops(ch["src"], links, body, [acc, bad], e)
                return f"{{ let mut {acc}: {self.ty(inner)} = Vec::new(); let mut {init};\n{loops}\n{res} }}"
            raise Unsupported("collect into " + tn)
        if m in ("any", "all", "find", "next", "position") and any(l["m"] in ("flat_map", "flatten", "chain") for l in links):
            raise Unsupported(m + " over a flattened iterator")
        if m in ("any", "all"):
            r = self.fresh("res")
            self.xb[r] = f"!{r}" if m == "any" else r
            c = t["args"][0]
            if m == "any":
                body = lambda x: f"if {self.apply(c, [x])} {{ {r} = true; break; }}"
            else:
                body = lambda x: f"if !({self.apply(c, [x])}) {{ {r} = false; break; }}"
            loops = self.chain_loops(ch["src"], links, body, [r], e)
            return f"{{ let mut {r} = {'false' if m == 'any' else 'true'};\n{loops}\n{r} }}"
        if m == "count":
            r = self.fresh("cnt")
            loops = self.chain_loops(ch["src"], links, lambda x: f"{r} = {r} + 1;", [r], e)
            return f"{{ let mut {r}: usize = 0;\n{loops}\n{r} }}"
        if m == "for_each":
            c = t["args"][0]
            return "{ " + self.chain_loops(ch["src"], links, lambda x: self.apply(c, [x]) + ";", [], e) + " }"
        if m in ("find", "next", "position"):
            if m == "next" and not links:
                it = self.fresh("it")
                return f"{{ let mut {it} = {self.source_text(ch['src'])}; {it}.next() }}"
            r = self.fresh("found")
            if m == "next":
                body = lambda x: f"{r} = Some({x}); break;"
            elif m == "find":
                c = t["args"][0]
                body = lambda x: f"if {self.apply(c, ['&' + x])} {{ {r} = Some({x}); break; }}"
            else:
                i = self.fresh("pos")
                c = t["args"][0]
                body = lambda x: f"if {self.apply(c, [x])} {{ {r} = Some({i}); break; }} {i} = {i} + 1;"
                loops = self.chain_loops(ch["src"], links, body, [r, i], e)
                return f"{{ let mut {r} = None; let mut {i}: usize = 0;\n{loops}\n{r} }}"
            loops = self.chain_loops(ch["src"], links, body, [r], e)
            return f"{{ let mut {r} = None;\n{loops}\n{r} }}"
        if m == "fold":
            r = self.fresh("fold")
            c = t["args"][1]
            body = lambda x: f"{r} = {self.apply(c, [r, x])};"
            loops = self.chain_loops(ch["src"], links, body, [r], e)
            return f"{{ let mut {r} = {self.ex(t['args'][0])};\n{loops}\n{r} }}"
        if m == "sum":
            r = self.fresh("sum")
            loops = self.chain_loops(ch["src"], links, lambda x: f"{r} = {r} + {x};", [r], e)
            return f"{{ let mut {r} = 0;\n{loops}\n{r} }}"
        raise Unsupported("iterator terminal " + m)

    def self_generic(self, a):
        return False

    def chain_loops(self, src, links, sink, accs, node, extra_vars=()):
        """Loops that push every item of the chain into sink(text)."""
        links = list(links)
        # chain(other) splits the pipeline
        for i, l in enumerate(links):
            if l["m"] == "chain":
                first = self.chain_loops(src, links[:i] + links[i + 1:], sink, accs, node)
                o = l["args"][0]
                oc = self.chain_src(o)
                second = self.chain_loops(oc[0], oc[1] + links[i + 1:], sink, accs, node)
                return first + "\n" + second
        pre = []
        it = self.fresh("it")
        src = self.held(src, pre)
        st = f"{src['text']}.it_into_iter()" if src["k"] == "RawIter" else self.source_text(src)
        while links and links[0]["m"] == "rev":
            st = f"({st}).x_rev()"
            links = links[1:]
        while links and links[0]["m"] in ("take", "skip") :
            st = f"({st}).x_{links[0]['m']}({self.ex(links[0]['args'][0])})"
            links = links[1:]
        while links and links[0]["m"] == "zip":
            o = self.chain_src(links[0]["args"][0])
            if o[1]:
                raise Unsupported("zip with a lazy chain")
            st = f"x_zip({st}, {self.source_text(o[0])})"
            links = links[1:]
        x = self.fresh("x")
        counters = []

        def stage(i, cur):
            if i == len(links):
                return sink(cur)
            l = links[i]
            m = l["m"]
            if m in ("cloned", "copied"):
                return stage(i + 1, f"{cur}.x_clone()")
            if m == "enumerate":
                c = self.fresh("idx")
                counters.append(c)
                v = self.fresh("pair")
                nxt = stage(i + 1, v)
                return f"let {v} = ({c}, {cur}); {c} = {c} + 1; {nxt}"
            if m == "map":
                v = self.fresh("y")
                t = self.apply(l["args"][0], [cur])
                return f"let {v} = {t}; " + stage(i + 1, v)
            if m == "inspect":
                return stage(i + 1, cur)
            if m == "filter":
                v = self.fresh("y")
                t = self.apply(l["args"][0], ["&" + v])
                return f"let {v} = {cur}; let keep_{v} = {t}; if keep_{v} {{ {stage(i + 1, v)} }}"
            if m == "filter_entry":
                # walkdir: an entry is yielded iff it and every directory entry above it (down from the start) is accepted
                v = self.fresh("y")
                fake = {"k": "MethodCall", "m": "all", "recv": None, "args": l["args"], "turbo": None, "line": l["line"]}
                t = self.chain_expr(fake, {"src": {"k": "RawIter", "text": f"x_chain(&{v})"}, "links": [], "terminal": fake})
                return f"let {v} = {cur}; let keep_{v} = {t}; if keep_{v} {{ {stage(i + 1, v)} }}"
            if m == "filter_map":
                v, w = self.fresh("y"), self.fresh("o")
                t = self.apply(l["args"][0], [cur])
                return f"let {w} = {t}; if let Some({v}) = {w} {{ {stage(i + 1, v)} }}"
            if m in ("flat_map", "flatten"):
                v = self.fresh("ys")
                t = self.apply(l["args"][0], [cur]) if m == "flat_map" else cur
                inner = self.chain_loops({"k": "RawIter", "text": v}, links[i + 1:], sink, accs, node)
                return f"let {v} = {t}; {inner}"
            if m == "take_while":
                v = self.fresh("y")
                t = self.apply(l["args"][0], ["&" + v])
                return f"let {v} = {cur}; if !({t}) {{ break; }} {stage(i + 1, v)}"
            raise Unsupported("iterator adapter " + m)

        lp = self.reserve_loop(node, it, x)
        body = stage(0, x)
        self.close_loop(lp)
        decl = "".join(f"let mut {c}: usize = 0;\n" for c in counters)
        return decl + "".join(p + "\n" for p in pre) + self.finish_loop(lp, it, st, x, body, accs, counters)

    def held(self, src, pre):
        """a slice that is walked outlives the walk"""
        key = "e" if src["k"] == "ERef" else "recv" if src["k"] == "MethodCall" and src["m"] in SOURCES else None
        if key is None or src[key]["k"] != "Index" or src[key]["idx"]["k"] != "Range":
            pre += src.get("pre", [])
            return src
        t = self.fresh("part")
        pre.append(f"let {t} = {self.slice(src[key])};")
        return dict(src, **{key: {"k": "EPath", "path": {"segs": [{"n": t, "args": None}]}}})

    def chain_src(self, o):
        if o["k"] == "ERef":
            pass
        links = []
        x = o
        while x["k"] == "MethodCall" and x["m"] in ADAPTERS:
            links.append(x)
            x = x["recv"]
        links.reverse()
        if x["k"] == "Paren" and x["e"]["k"] != "Range":
            inner = self.chain_src(x["e"])
            return inner[0], inner[1] + links
        return x, links

    # ---------------------------------------------------------------- loops
    def reserve_loop(self, node, it=None, x=None):
        d = {"idx": len(self.loops), "line": node.get("line"), "fn": self.cur, "outer": self.open_loops[-1] if self.open_loops else None}
        self.loops.append(d)
        self.open_loops.append(d)
        if it:
            d.update({"it": it, "all": it.replace("it_", "all_"), "done": it.replace("it_", "done_"), "prev": it.replace("it_", "prev_"), "x": x})
        return d

    def close_loop(self, lp):
        while self.open_loops and self.open_loops.pop() is not lp:
            pass

    def loop_text(self, node, it, st, x, body, accs, counters=(), owned=False):
        return self.finish_loop(self.reserve_loop(node, it, x), it, st, x, body, accs, counters)

    def finish_loop(self, lp, it, st, x, body, accs, counters):
        al, done = it.replace("it_", "all_"), it.replace("it_", "done_")
        lp.update({"kind": "iter", "it": it, "all": al, "done": done, "x": x, "accs": list(accs), "counters": list(counters),
                   "muts": [m for m in self.muts if re.search(r"\b%s\b" % re.escape(m), body)]})
        brk = re.search(r"\bbreak\b", strip_loops(body)) is not None
        lp["break"] = brk
        inv = self.u.invariants(self, lp)
        auto = [f"{al} =~= {done} + {it}@"]
        for c in counters:
            auto.append(f"{c} == {done}.len()")
        auto.append(f"{al}.len() <= usize::MAX")
        lines = []
        lines.append("/*L(*/")
        lines.append(f"let mut {it} = {st};")
        lines.append(f"let ghost {al} = {it}@; let ghost mut {done} = {al}.take(0);")
        before = self.u.loop_proof(self, lp, "before")
        at = len(lines)
        if before:
            lines.append(before)
        lines.append("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]")
        lines.append("loop")
        xb = [self.xb[a] for a in accs if a in self.xb] if brk else []
        if xb:
            lines.append("invariant_except_break")
            for a in xb:
                lines.append(f"  {a}, //@ob {self.cur}|auto")
        lines.append("invariant")
        for a in auto:
            lines.append(f"  {a}, //@ob {self.cur}|auto")
        for lab, t in inv:
            lines.append(f"  {t}, //@ob {self.cur}|inv:{lab}")
        ens = self.u.loop_ensures(self, lp)
        if not brk or ens:
            lines.append("ensures")
        if not brk:
            lines.append(f"  {it}@.len() == 0,")
        for lab, t in ens:
            lines.append(f"  {t}, //@ob {self.cur}|loopens:{lab}")
        lines.append(f"decreases {it}@.len(),")
        lines.append("{")
        lines.append(f"match {it}.next() {{ None => {{ break; }} Some({x}) => {{")
        prev = it.replace("it_", "prev_")
        lp["prev"] = prev
        lines.append(f"let ghost {prev} = {done};")
        lines.append(f"proof {{ {done} = {done}.push({al}[{done}.len() as int]); assert({done}.drop_last() =~= {prev}); }}")
        pre = self.u.loop_proof(self, lp, "pre")
        if pre:
            lines.append(pre)
        lines.append(body)
        post = self.u.loop_proof(self, lp, "post")
        if post:
            lines.append(post)
        lines.append("} } }")
        if not brk:
            lines.append(f"proof {{ assert({done} =~= {al}); }}")
        after = self.u.loop_proof(self, lp, "after")
        if after:
            lines.append(after)
        lines.append("/*)L*/")
        lines[at:at] = [f"let ghost {k} = {v};" for k, v in lp.get("ini", {}).items()]
        return "\n".join(lines)

    def e_For(self, e):
        if e.get("label"):
            raise Unsupported("labelled loop")
        src = e["e"]
        s, links = self.chain_src(src)
        x_pat = e["pat"]
        muts0 = list(self.muts)

        def sink(cur):
            b = self.bind(x_pat, cur)
            return b + "\n" + "\n".join(self.terminated(self.stmts(e["body"])))
        if not links and not self.is_source(s):
            pre = []
            s = {"k": "RawIter", "text": "(" + self.ex(self.held(s, pre)) + ")", "pre": pre}
        old, self.expect = self.expect, None
        t = self.chain_loops(s, links, sink, [], e)
        self.expect = old
        return "{\n" + t + "\n}"

    def terminated(self, st):
        if st and not st[-1].rstrip().endswith((";", "}")):
            st = st[:-1] + [st[-1] + ";"]
        return st

    def e_While(self, e):
        c = e["cond"]
        lp = self.reserve_loop(e)
        if c["k"] == "ELet":
            body = self.block(e["body"])
            head = f"while let {self.pat(c['pat'])} = {self.ex(c['e'])}"
            condt = self.ex(c["e"])
        else:
            condt = self.ex(c)
            body = self.block(e["body"])
            head = f"while {condt}"
        self.close_loop(lp)
        lp.update({"kind": "while", "accs": [], "counters": [], "muts": [m for m in self.muts if re.search(r"\b%s\b" % re.escape(m), body + condt)]})
        return self.user_loop(lp, head, body)

    def e_Loop(self, e):
        lp = self.reserve_loop(e)
        body = self.block(e["body"])
        self.close_loop(lp)
        lp.update({"kind": "loop", "accs": [], "counters": [], "muts": [m for m in self.muts if re.search(r"\b%s\b" % re.escape(m), body)]})
        return self.user_loop(lp, "loop", body)

    def user_loop(self, lp, head, body):
        inv = self.u.invariants(self, lp)
        dec = self.u.decreases(self, lp)
        out = ["/*L(*/", "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", head]
        if inv:
            out.append("invariant")
            for lab, t in inv:
                out.append(f"  {t}, //@ob {self.cur}|inv:{lab}")
        ens = self.u.loop_ensures(self, lp)
        if ens:
            out.append("ensures")
            for lab, t in ens:
                out.append(f"  {t}, //@ob {self.cur}|loopens:{lab}")
        if dec:
            out.append(f"decreases {dec}, //@ob {self.cur}|decreases")
        pre = self.u.loop_proof(self, lp, "pre")
        if pre:
            body = "{ " + pre + "\n" + body[1:]
        post = self.u.loop_proof(self, lp, "post")
        if post:
            body = body[:-1] + "\n" + post + "}"
        out.append(body)
        after = self.u.loop_proof(self, lp, "after")
        if after:
            out.append(after)
        out.append("/*)L*/")
        before = self.u.loop_proof(self, lp, "before")
        out[1:1] = [f"let ghost {k} = {v};" for k, v in lp.get("ini", {}).items()] + ([before] if before else [])
        return "\n".join(out)

    muts = []
