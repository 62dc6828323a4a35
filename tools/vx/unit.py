"""Verification units: contract file + source items -> one Verus file, run, obligations by name."""
import hashlib, json, os, re, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rs2verus import Tr, Unsupported, path_str, contains, walk, tail_calls, result_vars

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


def rx_bin():
    p = os.path.join(BUILD, "target", "release", "rx")
    src = os.path.join(VERIF, "tools", "rx", "src", "main.rs")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "tools", "rx"), env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("rx build failed: " + r.stderr[-2000:])
    return p


_ast_cache = {}


def parse_rust(path):
    key = (path, open(path, "rb").read())
    if key not in _ast_cache:
        r = subprocess.run([rx_bin(), path], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError(r.stderr)
        _ast_cache[key] = json.loads(r.stdout)[path]
    return _ast_cache[key]


# ------------------------------------------------------------------ contract files
class FnC:
    def __init__(self, key, params, ret):
        self.key, self.params, self.ret = key, params, ret
        self.requires, self.ensures = [], []
        self.loops = []          # list of dict(inv=[], pre="", post="", ens=[], dec=None, sel=None)
        self.entry = ""
        self.exit = ""
        self.assumed = False
        self.proved_in = None
        self.ghost_params = ""
        self.attrs = []
        self.decreases = None
        self.sees = []


def path_of(c):
    return c.path


def spec_chunks(lines):
    """[(name of the item or its text, lines)] of the top-level items of a spec block, without `broadcast use`"""
    out, cur = [], []
    for l in lines:
        if l.startswith("broadcast use"):
            continue
        if re.match(r"(pub |impl|#\[|//)", l) and cur and not re.match(r"(#\[[^\]]*\]\s*$|//)", cur[-1]):
            out.append(cur); cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    res = []
    for ch in out:
        t = "\n".join(x for x in ch if not x.startswith("//"))
        m = re.search(r"\b(?:fn|struct|enum|mod|trait)\s+(\w+)", t)
        im = re.match(r"impl\b[^{]*", t)
        res.append((im.group(0) if im else m.group(1) if m else t, [x for x in ch if x.strip() and not x.startswith("//")]))
    return res


class Contract:
    def __init__(self, path):
        self.path = path
        self.name = None
        self.sources = []
        self.preludes = []
        self.includes = []
        self.spec = []
        self.fns = {}
        self.traits = {}
        self.impls = {}
        self.opts = {}
        self.imports = []
        self.foreign_traits = set()
        self.foreign_lemmas = set()
        self.parse(open(path).read())

    def parse(self, text):
        cur = None
        mode = None
        fn = None
        loop = None
        buf = None
        for ln, raw in enumerate(text.split("\n"), 1):
            line = raw.rstrip()
            if line.startswith("#") and mode not in ("spec", "implspec", "traitspec"):
                continue
            if line.startswith("@"):
                d, _, rest = line[1:].partition(" ")
                rest = rest.strip()
                mode = d
                if d == "unit":
                    self.name = rest
                elif d == "source":
                    self.sources += rest.split()
                elif d == "prelude":
                    self.preludes += rest.split()
                elif d == "include":
                    self.includes.append(rest)
                elif d == "import":
                    self.imports.append(rest)
                elif d == "opt":
                    k, _, v = rest.partition(" ")
                    self.opts.setdefault(k, []).append(v)
                elif d == "use":
                    un, *keys = rest.split()
                    o = Contract(os.path.join(os.path.dirname(self.path), un + ".vc"))
                    have = {a: [x for x in b if "external_body" not in x] for a, b in spec_chunks(self.spec)}
                    for nm, ch in spec_chunks(o.spec):
                        if have.get(nm) == [x for x in ch if "external_body" not in x]:
                            continue
                        if nm and nm in have:
                            raise ValueError(f"{path_of(self)}: {nm} of unit {un} is already defined differently")
                        # lemmas of the other unit are proved there
                        if re.search(r"^pub (broadcast )?proof fn", "\n".join(ch), re.M):
                            ch = ["#[verifier::external_body]"] + [x for x in ch if "external_body" not in x]
                            self.foreign_lemmas.add(nm)
                        self.spec += ch
                    self.includes += [x for x in o.includes if x not in self.includes]
                    for k in keys:
                        if k.startswith("trait:"):
                            self.traits[k[6:]] = o.traits[k[6:]]
                            self.foreign_traits.add(k[6:])
                            for fk in o.fns:
                                if fk.startswith(k[6:] + "::"):
                                    o.fns[fk].proved_in = un
                                    self.fns[fk] = o.fns[fk]
                            continue
                        f = o.fns[k]
                        f.assumed, f.proved_in = True, un
                        self.fns[k] = f
                elif d == "spec":
                    pass
                elif d in ("fn", "assume"):
                    m = re.match(r"([\w:<>]+)\((.*?)\)\s*(?:->\s*(\w+))?$", rest)
                    if not m:
                        raise ValueError(f"{self.path}:{ln}: {line}")
                    fn = FnC(m.group(1), [p.strip() for p in m.group(2).split(",") if p.strip()], m.group(3) or "r")
                    fn.assumed = d == "assume"
                    self.fns[fn.key] = fn
                    loop = None
                elif d == "loop":
                    loop = {"inv": [], "pre": "", "post": "", "before": "", "after": "", "ens": [], "dec": None, "sel": rest}
                    fn.loops.append(loop)
                elif d == "dec":
                    if loop is not None:
                        loop["dec"] = rest
                    else:
                        fn.decreases = rest
                elif d == "ghost":
                    fn.ghost_params = rest
                elif d == "attr":
                    fn.attrs.append(rest)
                elif d == "trait":
                    self.traits[rest] = {"spec": ""}
                    cur = self.traits[rest]; mode = "traitspec"
                elif d == "impl":
                    self.impls[rest] = {"spec": ""}
                    cur = self.impls[rest]; mode = "traitspec"
                elif d in ("requires", "ensures", "inv", "pre", "post", "before", "after", "ens", "entry", "exit"):
                    pass
                else:
                    raise ValueError(f"{self.path}:{ln}: unknown directive {d}")
                continue
            if mode == "spec":
                self.spec.append(raw)
            elif mode == "traitspec":
                cur["spec"] += raw + "\n"
            elif mode in ("requires", "ensures", "inv", "ens"):
                if not line.strip():
                    continue
                m = re.match(r"  (\w+):\s(.*)$", line)
                tgt = {"requires": fn.requires, "ensures": fn.ensures}.get(mode)
                if tgt is None:
                    tgt = loop[mode]
                if m and not line.startswith("   "):
                    tgt.append([m.group(1), m.group(2)])
                else:
                    tgt[-1][1] += "\n" + line
            elif mode in ("pre", "post", "before", "after"):
                loop[mode] += raw + "\n"
            elif mode in ("entry", "exit"):
                setattr(fn, mode, getattr(fn, mode) + raw + "\n")
            elif line.strip():
                raise ValueError(f"{self.path}:{ln}: stray text: {line}")
        for f in self.fns.values():
            for lst in [f.requires, f.ensures] + [l["inv"] for l in f.loops] + [l["ens"] for l in f.loops]:
                for c in lst:
                    c[1] = c[1].rstrip().rstrip(",")


# std traits whose derived meaning the shims rely on
DERIVED = {"Clone", "Copy", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Deref", "Drop", "Borrow", "AsRef"}


_SHAPES = None


def shape_base():
    """loops (number of mutable variables, of accumulators) the annotations were written for: contracts/shapes.json, written by tools/mkshapes.py"""
    global _SHAPES
    if _SHAPES is None:
        p = os.path.join(VERIF, "contracts", "shapes.json")
        _SHAPES = json.load(open(p)) if os.path.exists(p) else {}
    return _SHAPES


class Unit:
    def __init__(self, name, repo=None):
        self.repo = repo or REPO
        self.c = Contract(os.path.join(VERIF, "contracts", name + ".vc"))
        self.name = name
        self.fns = {}          # key -> (fn item, self type, trait)
        self.items = {}
        self.local_fns = {}
        self.inlined = set()
        self.monos = {}
        self.type_map = {}
        self.path_map = {}
        self.drop_mods = set(("self", "fmt", "pattern", "cli", "scheduler", "subproject", "worker", "utils", "std", "exit_codes"))
        self.call_hooks = {}
        self.method_hooks = {}
        self.effect_fns = set()
        self.effect_arg = "w"
        self.turbo = set()
        self.from_fns = set()
        self.ghost_args = {}
        self.iter_fns = set()
        self.sort_keys = {}
        self.traits_methods = {}
        self.unsupported = {}
        self.loop_choice = {}
        for k, vs in self.c.opts.items():
            for v in vs:
                if k == "typemap":
                    a, b = v.split("=>"); self.type_map[a.strip()] = b.strip()
                elif k == "pathmap":
                    a, b = v.split("=>"); self.path_map[a.strip()] = b.strip()
                elif k == "effect":
                    self.effect_fns |= set(v.split())
                elif k == "ghostarg":
                    a, b = v.split("=>"); self.ghost_args[a.strip()] = [b.strip()]
                elif k == "sortkey":
                    a, b = v.split("=>"); self.sort_keys[a.strip()] = b.strip()
                elif k == "turbo":
                    self.turbo |= set(v.split())
                elif k == "from":
                    self.from_fns |= set(v.split())
                elif k == "iterfn":
                    self.iter_fns |= set(v.split())
        self.handwritten = []
        self.impl_of = set()
        self.load()
        # the methods an implementer takes over from the trait
        for t, tr in self.impl_of:
            it = self.items.get(("Trait", tr))
            for x in it["items"] if it else []:
                if x["k"] == "Fn" and x.get("body") is not None and f"{t}::{x['sig']['name']}" not in self.fns:
                    self.fns[f"{t}::{x['sig']['name']}"] = (x, t, tr, "")
                    self.traits_methods.setdefault(x["sig"]["name"], []).append(f"{t}::{x['sig']['name']}")

    # ---------------- source
    def load(self):
        for s in self.c.sources:
            p = os.path.join(self.repo, s)
            if not os.path.exists(p):
                raise Unsupported("missing source file " + s)
            ast = parse_rust(p)
            if "error" in ast:
                raise Unsupported(f"{s}: {ast['error']}")
            self.add_items(ast["items"], s)

    def add_items(self, items, src):
        for it in items:
            attrs = it.get("attrs") or []
            if any("cfg" in a and "test" in a for a in attrs):
                continue
            if it["k"] == "Fn":
                self.fns[it["sig"]["name"]] = (it, None, None, src)
                self.local_fns[it["sig"]["name"]] = it
            elif it["k"] in ("Struct", "Enum", "Trait", "Const"):
                self.items[(it["k"], it["name"])] = it
            elif it["k"] == "Impl":
                if it["ty"]["k"] != "Path":
                    continue
                t = it["ty"]["segs"][-1]["n"]
                tr = it["trait"]["segs"][-1]["n"] if it["trait"] else None
                if tr:
                    self.impl_of.add((t, tr))
                if tr in DERIVED:
                    self.handwritten.append((tr, t))
                for x in it["items"]:
                    if x["k"] == "Fn":
                        key = f"{t}::{x['sig']['name']}"
                        self.fns[key] = (x, t, tr, src)
                        if tr:
                            self.traits_methods.setdefault(x["sig"]["name"], []).append(key)
                        self.local_fns.setdefault(x["sig"]["name"], x)
            elif it["k"] == "Mod" and it["items"]:
                self.add_items(it["items"], src)

    @property
    def float_fields(self):
        out = set()
        for (k, n), it in self.items.items():
            if k == "Struct" and it["fields"]["k"] == "Named":
                out |= {x["name"] for x in it["fields"]["fields"] if x["ty"]["k"] == "Path" and x["ty"]["segs"][-1]["n"] in ("f64", "f32")}
        return out

    def lookup_fn(self, key):
        if key in self.fns:
            return self.fns[key][0]
        k2 = "::".join(key.split("::")[-2:])
        if k2 in self.fns:
            return self.fns[k2][0]
        k1 = key.split("::")[-1]
        if k1 in self.fns and k1[0].islower():
            return self.fns[k1][0]
        return None

    def canon(self, key):
        for k in (key, "::".join(key.split("::")[-2:]), key.split("::")[-1]):
            if k in self.fns:
                return k
        return key

    def has_contract(self, key):
        return self.canon(key) in self.c.fns

    def hof_params(self, fn):
        """names of parameters whose type is a generic bounded by Fn*"""
        g = {}
        gen = fn["sig"]["generics"]
        for p in gen["params"]:
            if p["k"] == "Type":
                g[p["name"]] = p["bounds"]
        for w in gen["where"] or []:
            if "ty" in w and w["ty"]["k"] == "Path":
                g.setdefault(w["ty"]["segs"][0]["n"], []).extend(w["bounds"])
        out = {}
        for i in fn["sig"]["inputs"]:
            if i.get("self"):
                continue
            t = i["ty"]
            if t["k"] == "Path" and len(t["segs"]) == 1 and t["segs"][0]["n"] in g:
                for b in g[t["segs"][0]["n"]]:
                    if b["k"] == "Path" and b["segs"][-1]["n"] in ("Fn", "FnMut", "FnOnce"):
                        out[i["pat"]["name"]] = t["segs"][0]["n"]
            if t["k"] == "Impl" and re.search(r"\bFn(Mut|Once)?\b", t["text"]):
                out[i["pat"]["name"]] = None
            if t["k"] == "Verb" and re.match(r"fn\b", t["text"]):
                out[i["pat"]["name"]] = None
        return out

    def resolve_method(self, tr, e):
        """key of a same-file method for `recv.m(..)`, only when the name is unambiguous and not a shim name"""
        m = e["m"]
        r = e["recv"]
        cands = [k for k, v in self.fns.items() if v[1] and k.endswith("::" + m)]
        if not cands:
            return None
        if r["k"] == "EPath" and path_str(r["path"]) == "self" and tr.self_ty and f"{tr.self_ty}::{m}" in self.fns:
            return f"{tr.self_ty}::{m}"
        if m in self.traits_methods:
            return None          # dynamic dispatch / trait method: contract of the trait
        if len(cands) == 1 and (self.has_contract(cands[0]) or m not in GENERIC_NAMES):
            return cands[0]
        return None

    def need_mono(self, key, nm, clo):
        self.monos[nm] = (key, clo)

    # ---------------- annotation lookup
    def fnc(self, key):
        return self.c.fns.get(key)

    def loop_of(self, tr, lp):
        c = tr.contract
        if c is None:
            return None
        choice = self.loop_choice.get(tr.cur)
        if choice is not None:
            i = choice.get(lp["idx"])
            return c.loops[i] if i is not None and i < len(c.loops) else None
        if lp["idx"] < len(c.loops):
            return c.loops[lp["idx"]]
        return None

    def sub(self, tr, lp, t):
        c = tr.contract
        accs = lp.get("accs", [])
        muts = lp.get("muts", [])
        def role(m):
            r = m.group(1)
            if r == "acc":
                if accs:
                    return accs[0]
                if muts:
                    return muts[0]
                return "MISSING_acc"
            if r in ("it", "all", "done", "x", "prev"):
                return lp.get(r, "MISSING_" + r)
            if r[0] == "m" and r[1:].isdigit():
                i = int(r[1:])
                if i >= len(muts) and i < len(accs):      # a chain whose result takes the place of the variable
                    return accs[i]
                return muts[i] if i < len(muts) else "MISSING_" + r
            if r[0] == "i" and r[1:].isdigit():   # the value of $m<i> when the loop is entered
                i = int(r[1:])
                if i >= len(muts) and i >= len(accs):
                    return "MISSING_" + r
                lp.setdefault("ini", {})[f"ini_{lp['idx']}_{i}"] = muts[i] if i < len(muts) else accs[i]
                return f"ini_{lp['idx']}_{i}"
            if r.startswith("r_"):             # the variable bound to the result of a call
                return tr.call_results.get(r[2:], "MISSING_" + r)
            if r.startswith("a_"):             # the variable passed as first argument of that call
                return (tr.call_args.get(r[2:]) or [None])[0] or "MISSING_" + r
            if r[0] == "o" and r[1:] in ("it", "all", "done", "x", "prev"):   # the enclosing loop's
                return (lp.get("outer") or {}).get(r[1:], "MISSING_" + r)
            return m.group(0)
        # what a role stands for is a variable of the code, never a contract's parameter name
        t = re.sub(r"\$(\w+)", lambda m: re.sub(r"(?<!\w)(?=[A-Za-z_])", "\1", role(m)), t)
        for k, v in getattr(tr, "fnsub", {}).items():
            for a in [a for a, b in tr.param_map.items() if b == k] + [k]:
                t = t.replace("{" + a + "}", v)
        return self.rename_params(tr, t, ghost=True)

    def rename_params(self, tr, t, ghost=False):
        for cn, an in tr.param_map.items():
            rep = an
            if ghost and an in tr.ghosted:
                rep = "g_" + an
            t = re.sub(r"(?<![\w.$\0\1])%s\b(?!\s*\()" % re.escape(cn), "\0" + rep, t)
        return t.replace("\0", "").replace("\1", "")

    def invariants(self, tr, lp):
        l = self.loop_of(tr, lp)
        if l is None:
            return []
        return [(a, self.sub(tr, lp, b)) for a, b in l["inv"]]

    def loop_ensures(self, tr, lp):
        l = self.loop_of(tr, lp)
        return [(a, self.sub(tr, lp, b)) for a, b in l["ens"]] if l else []

    def decreases(self, tr, lp):
        l = self.loop_of(tr, lp)
        return self.sub(tr, lp, l["dec"]) if l and l["dec"] else None

    def loop_proof(self, tr, lp, which):
        l = self.loop_of(tr, lp)
        t = l[which] if l else ""
        return self.sub(tr, lp, t) if t.strip() else ""

    # ---------------- emission
    def emit_fn(self, key, body=True, vac=False, mono=None):
        """text of one function (external_body when body is False)"""
        item, self_ty, trait, src = self.fns[key]
        c = self.c.fns.get(key)
        sig = item["sig"]
        tr = Tr(self)
        tr.self_ty = self_ty
        tr.cur = mono or key
        tr.contract = c
        tr.muts = []
        tr.open_loops = []
        tr.ret_ty = sig["ret"]
        clo = {}
        if mono:
            clo = self.monos[mono][1]
        hof = self.hof_params(item)
        tr.closure_params = dict(clo)
        params = []
        names = []
        tr.ghosted = set()
        moved = []
        for i in sig["inputs"]:
            if i.get("self"):
                # `self: Rc<Self>`, `self: &Rc<Self>`: a counted reference reads as what it points to
                byref = i["ref"] or re.match(r"(mut )?self : &", i["text"])
                params.append("&mut self" if byref and i["mut"] else "&self" if byref else ("mut self" if i["mut"] else "self"))
                continue
            if i["pat"]["k"] == "PWild":
                n = tr.fresh("unused")
            elif i["pat"]["k"] == "PIdent":
                n = i["pat"]["name"]
            else:
                raise Unsupported("pattern parameter")
            names.append(n)
            if n in hof:
                continue
            m = "mut " if i["pat"].get("mut") else ""
            if m:
                tr.muts.append(n)
            params.append(f"{m}{n}: {tr.ty(i['ty'])}")
            if not (i["ty"]["k"] == "Ref" and i["ty"]["mut"]):
                tr.ghosted.add(n)
        tr.param_map = {}
        if c:
            if len(c.params) != len(names):
                raise Unsupported(f"{key}: parameter list changed")
            tr.param_map = dict(zip(c.params, names))
        effectful = key in self.effect_fns or key.split("::")[-1] in self.effect_fns
        if effectful:
            params.append(f"{self.effect_arg}: &mut World")
        if c and c.ghost_params:
            params.append(c.ghost_params)
        ret = c.ret if c else "r"
        rt = tr.ty(sig["ret"]) if sig["ret"] else "()"
        gens = [("'" + p["name"].lstrip("'")) if p["k"] == "Life" else p["name"] for p in sig["generics"]["params"]
                if not (p["k"] == "Type" and p["name"] in hof.values())]
        g = "<" + ", ".join(gens) + ">" if gens else ""
        name = (mono or sig["name"]) + ("__vac" if vac else "")
        out = []
        tr.fnsub = {k: path_str(a["path"]).split("::")[-1] for k, a in clo.items()}
        if c:
            for a in c.attrs:
                out.append(a)
        if not body:
            out.append("#[verifier::external_body]")
        fnsub = {}
        for k, a in clo.items():
            fnsub[k] = path_str(a["path"]).split("::")[-1]
        def ct(t):
            for k, v in fnsub.items():
                cp = [a for a, b in tr.param_map.items() if b == k]
                for a in cp + [k]:
                    t = t.replace("{" + a + "}", v)
            return self.rename_params(tr, t)
        out.append(f"fn {name}{g}(" + ", ".join(params) + f") -> ({ret}: {rt})" if rt != "!" else f"fn {name}{g}(" + ", ".join(params) + ") -> !")
        intrait = trait in self.c.traits and not vac
        req = [] if not c or intrait else c.requires
        ens = [] if not c or intrait else c.ensures
        # a trait impl inherits requires/ensures; the vacuity copy repeats them
        if trait in self.c.traits and vac:
            tm = self.c.fns.get(f"{trait}::{sig['name']}")
            if tm:
                tmap = dict(zip(tm.params, names))
                req = [[l, self.ren(t, tmap)] for l, t in tm.requires]
        if req:
            out.append("requires")
            for l, t in req:
                out.append(f"  {ct(t)}, //@ob {mono or key}|requires:{l}")
        if vac:
            out.append(f"ensures false, //@ob {mono or key}|vac")
        elif ens:
            out.append("ensures")
            for l, t in ens:
                out.append(f"  {ct(t)}, //@ob {mono or key}|ensures:{l}")
        if c and c.decreases:
            out.append(f"decreases {ct(c.decreases)},")
        if not body:
            out.append("{ loop decreases 0int { } }" if False else "{ unimplemented!() }")
            return "\n".join(out)
        if c and c.exit.strip():
            tr.exit_text = ct(self.rename_params(tr, c.exit, ghost=True))
            tr.ret_name = ret
        tr.tail_nodes = set()
        tail_calls(item["body"], tr.tail_nodes)
        tr.var_types = result_vars(item["body"], sig["ret"])
        st = tr.stmts(item["body"], sig["ret"])
        head = []
        for q in sorted(tr.lits):
            head.append(f"proof {{ reveal_strlit({q}); }}")
        for n in names:
            if n in tr.ghosted and n not in hof:
                head.append(f"let ghost g_{n} = {n};")
        if c and c.entry.strip():
            head.append(ct(c.entry))
        if c and c.exit.strip():
            # bind the tail value, run the exit proof, return it
            tail_unit = not item["body"] or item["body"][-1]["k"] == "Let" or item["body"][-1].get("semi")
            if not tail_unit:
                st[-1] = f"let {ret} = {st[-1]};\n{ct(self.rename_params(tr, c.exit, ghost=True))}\n{ret}"
            else:
                st.append(ct(self.rename_params(tr, c.exit, ghost=True)))
        out.append("{")
        out += head + st
        out.append("}")
        self.loops_seen[mono or key] = tr.loops
        self.shapes[mono or key] = [[len(l.get("muts", [])), len(l.get("accs", []))] for l in tr.loops]
        if vac and any("x_exit(" in l for l in out):       # a function that ends the process instead of returning
            out = [exits_reached("\n".join(out), mono or key)]
        return f"//@fn {name_key(mono or key, vac)}\n" + "\n".join(out) + "\n//@endfn"

    def ren(self, t, m):
        for a, b in m.items():
            t = re.sub(r"(?<![\w.])%s\b" % re.escape(a), b, t)
        return t

    def emit_struct(self, it):
        tr = Tr(self)
        g = it["generics"]["params"]
        gs = "<" + ", ".join(p["name"] for p in g) + ">" if g else ""
        f = it["fields"] if it["k"] == "Struct" else None
        if it["k"] == "Struct":
            if f["k"] == "Named":
                return f"pub struct {it['name']}{gs} {{ " + ", ".join(f"pub {x['name']}: {tr.ty(x['ty'])}" for x in f["fields"]) + " }"
            if f["k"] == "Unit":
                return f"pub struct {it['name']};"
            return f"pub struct {it['name']}{gs}(" + ", ".join("pub " + tr.ty(x["ty"]) for x in f["fields"]) + ");"
        vs = []
        for v in it["variants"]:
            f = v["fields"]
            if f["k"] == "Unit":
                vs.append(v["name"])
            elif f["k"] == "Unnamed":
                vs.append(v["name"] + "(" + ", ".join(tr.ty(x["ty"]) for x in f["fields"]) + ")")
            else:
                vs.append(v["name"] + " { " + ", ".join(f"{x['name']}: {tr.ty(x['ty'])}" for x in f["fields"]) + " }")
        return f"pub enum {it['name']}{gs} {{ " + ", ".join(vs) + " }"

    def generate(self, vac=False):
        """returns text; records self.unsupported {key: reason}, self.emitted [keys]"""
        self.loops_seen = {}
        self.shapes = {}
        self.emitted = []
        self.monos = {}
        self.inlined = set()
        out = ["#![allow(unused_imports, unused_parens, unused_mut, unused_variables, dead_code, non_camel_case_types, unused_braces, unused_assignments, unreachable_code, non_snake_case, unused_must_use)]",
               "use vstd::prelude::*;"]
        for p in self.c.preludes:
            out.append(f"pub mod pre_{p} {{ use vstd::prelude::*;")
            for q in self.c.preludes[:self.c.preludes.index(p)]:
                out.append(f"use super::pre_{q}::*;")
            out.append(open(os.path.join(VERIF, "prelude", p + ".rs")).read())
            out.append(f"}}\nuse pre_{p}::*;")
        inc = {i.split()[1] for i in self.c.includes}
        for tn, t in self.handwritten:
            if tn == "Default" and not re.search(r"impl %s \{[^\n]*fn default" % t, "\n".join(self.c.spec)):
                continue
            if t in inc and not any(k.startswith(t + "::") and self.fns.get(k, (0, 0, None))[2] == tn for k in self.c.fns):
                raise Unsupported(f"hand-written {tn} for {t}")
        out.append("verus! {")
        out.append("\n".join(self.c.spec))
        for inc in self.c.includes:
            k, n = inc.split()
            k = k.capitalize()
            it = self.items.get((k, n))
            if it is None:
                raise Unsupported(f"{k} {n} not found")
            if k in ("Struct", "Enum"):
                out.append(self.emit_struct(it))
            elif k == "Const":
                tr = Tr(self)
                out.append(f"pub const {n}: {tr.ty(it['ty'])} = {tr.ex(it['e'])};")
        for n, t in self.c.traits.items():
            it = self.items.get(("Trait", n))
            if it is None:
                raise Unsupported("trait " + n + " not found")
            ms = []
            for x in it["items"]:
                if x["k"] != "Fn":
                    continue
                ms.append(self.trait_method(n, x))
            out.append(f"pub trait {n} {{\n{t['spec']}\n" + "\n".join(ms) + "\n}")
        done_impl = {}
        for key, c in self.c.fns.items():
            if key.split("::")[0] in self.c.traits:
                continue
            if key not in self.fns:
                if c.assumed:
                    continue
                self.unsupported[key] = "function not found in the source (lost anchor)"
                continue
            item, self_ty, trait, src = self.fns[key]
            hof = self.hof_params(item)
            if hof:
                continue
            body = not c.assumed and key not in self.unsupported
            try:
                if vac:
                    t = self.emit_fn(key, body=False)
                    tv = self.emit_fn(key, body=True, vac=True) if body else ""
                else:
                    t, tv = self.emit_fn(key, body=body), ""
                    if body:
                        self.emitted.append(key)
            except Unsupported as ex:
                self.unsupported[key] = str(ex)
                try:
                    t, tv = self.emit_fn(key, body=False), ""
                except Unsupported as ex2:
                    continue
            self.place(done_impl, self_ty, trait, t)
            if tv:
                self.place(done_impl, self_ty, None, tv)
        # monomorphic copies of higher-order helpers
        did = set()
        while set(self.monos) - did:
            nm = sorted(set(self.monos) - did)[0]
            did.add(nm)
            key = self.canon(self.monos[nm][0])
            try:
                if vac:
                    self.place(done_impl, None, None, self.emit_fn(key, body=False, mono=nm))
                    self.place(done_impl, None, None, self.emit_fn(key, body=True, vac=True, mono=nm))
                else:
                    self.place(done_impl, None, None, self.emit_fn(key, body=True, mono=nm))
                    self.emitted.append(nm)
            except Unsupported as ex:
                self.unsupported[nm] = str(ex)
                self.place(done_impl, None, None, self.emit_fn(key, body=False, mono=nm))
        for (t, tr), texts in done_impl.items():
            if t is None:
                out += texts
            else:
                sp = self.c.impls.get(f"{tr} for {t}", {}).get("spec", "") if tr in self.c.traits else ""
                h = f"impl {tr} for {t}" if tr in self.c.traits else f"impl {t}"
                out.append(f"{h} {{\n{sp}\n" + "\n".join(texts) + "\n}")
        out.append("} // verus!\nfn main() {}")
        return "\n".join(out)

    def clauses(self, text, fns, prop):
        """named clauses attached to these functions, without other properties' clauses"""
        out = set()
        for i, m in enumerate(re.finditer(r"//@ob (\S+)\|(\S+)", text)):
            k, lab = m.group(1), m.group(2)
            lp = re.match(r"(C\d\d)_", lab.split(":")[-1])
            if lp and lp.group(1) != prop:
                continue
            if lab.startswith("requires"):
                continue
            if k in fns or k.split("::")[0] in self.c.traits:
                out.add((k, lab, i))
        return out

    def shape_ok(self, key):
        """the loops the annotations were written for are the loops that are there now"""
        c = self.c.fns.get(key) or self.c.fns.get(key.split("__")[0])
        if c is None:
            return True
        now = self.shapes.get(key, [])
        if len(c.loops) != len(now):
            return False
        base = shape_base().get(self.name, {}).get(key)
        # a loop which changes other variables than before is not the loop the invariant was written for
        return base is None or base == now

    def place(self, d, self_ty, trait, t):
        if self_ty is None:
            d.setdefault((None, None), []).append(t)
        elif trait in self.c.traits:
            d.setdefault((self_ty, trait), []).append(t)
        else:
            d.setdefault((self_ty, None), []).append(t)

    def trait_method(self, tn, x):
        key = f"{tn}::{x['sig']['name']}"
        c = self.c.fns.get(key)
        tr = Tr(self)
        params = []
        names = []
        for i in x["sig"]["inputs"]:
            if i.get("self"):
                params.append("&mut self" if i["ref"] and i["mut"] else "&self" if i["ref"] else "self")
                continue
            names.append(i["pat"]["name"])
            params.append(f"{i['pat']['name']}: {tr.ty(i['ty'])}")
        rt = tr.ty(x["sig"]["ret"]) if x["sig"]["ret"] else "()"
        o = [f"fn {x['sig']['name']}(" + ", ".join(params) + f") -> ({c.ret if c else 'r'}: {rt})"]
        if c:
            m = dict(zip(c.params, names))
            if c.requires:
                o.append("requires")
                o += [f"  {self.ren(t, m)}, //@ob {key}|requires:{l}" for l, t in c.requires]
            if c.ensures:
                o.append("ensures")
                o += [f"  {self.ren(t, m)}, //@ob {key}|ensures:{l}" for l, t in c.ensures]
        return "\n".join(o) + "\n;"


def exits_reached(text, key):
    res, i = "", 0
    while True:
        j = text.find("x_exit(", i)
        if j < 0:
            return res + text[i:]
        k, d = j + 6, 0
        while True:
            d += {"(": 1, ")": -1}.get(text[k], 0)
            k += 1
            if d == 0:
                break
        res += text[i:j] + "{ proof {\nassert(false); //@ob " + key + "|vac\n} " + text[j:k] + " }"
        i = k


def name_key(k, vac):
    return k + ("__vac" if vac else "")


def make_unit(name):
    for l in open(os.path.join(VERIF, "contracts", name + ".vc")):
        if l.startswith("@source") and ".py" in l:
            import py2verus
            return py2verus.PyUnit(name)
    return Unit(name)


GENERIC_NAMES = {"new", "len", "push", "is_empty", "clone", "iter", "next", "get", "insert", "default", "fmt", "from_str", "collect", "map"}


# ------------------------------------------------------------------ running Verus
VERUS = os.environ.get("VX_VERUS", "verus")


def run_verus(path, rlimit=30, extra=(), limit=600):
    t0 = time.time()
    cmd = [VERUS, path, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--multiple-errors", "20", *extra, "--", "--error-format=json"]
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    try:
        so, se = pr.communicate(timeout=limit)
        r = subprocess.CompletedProcess(cmd, pr.returncode, so, se)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(pr.pid, signal.SIGKILL)       # the solver processes too
        except ProcessLookupError:
            pass
        pr.communicate()
        return {"ok": False, "timeout": True, "errors": [], "wall": time.time() - t0, "cmd": " ".join(cmd)}
    errs = []
    for l in r.stderr.split("\n"):
        l = l.strip()
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error":
            errs.append(d)
    out = {}
    try:
        out = json.loads(r.stdout)
    except ValueError:
        m = re.search(r"\{.*\}", r.stdout, re.S)
        if m:
            try:
                out = json.loads(m.group(0))
            except ValueError:
                pass
    vr = out.get("verification-results", {})
    return {"ok": vr.get("success", False) and not errs, "results": vr, "times": out.get("times-ms", {}), "errors": errs, "raw": out,
            "wall": time.time() - t0, "cmd": " ".join(cmd), "stderr": r.stderr, "rc": r.returncode}


def describe(err, lines):
    """(message, [(line, text, label, obligation)])"""
    sp = []
    for s in err.get("spans", []):
        n = s["line_start"]
        ob = None
        for k in range(n - 1, min(n + 6, len(lines))):
            m = re.search(r"//@ob (.*)$", lines[k])
            if m:
                ob = m.group(1)
                break
            if k > n - 1 and re.search(r"^(fn|\{|proof|let)\b", lines[k]):
                break
        sp.append((n, lines[n - 1].strip()[:200] if n <= len(lines) else "", s.get("label"), ob, s.get("is_primary")))
    return err.get("message"), sp


if __name__ == "__main__":
    sys.modules['unit'] = sys.modules['__main__']
    u = make_unit(sys.argv[1])
    t = u.generate(vac="--vac" in sys.argv)
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    p = os.path.join(BUILD, "gen", u.name + ("_vac" if "--vac" in sys.argv else "") + ".rs")
    open(p, "w").write(t)
    print("unsupported:", u.unsupported)
    print("inlined:", u.inlined, "monos:", list(u.monos))
    r = run_verus(p)
    lines = t.split("\n")
    for e in r["errors"]:
        m, sp = describe(e, lines)
        print("ERR", m)
        for s in sp:
            print("    ", s)
    print(json.dumps(r["results"]), "wall", round(r["wall"], 2))
    if "-v" in sys.argv:
        print(r["stderr"][-3000:])
