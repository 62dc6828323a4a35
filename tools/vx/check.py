"""One property's check: extract, verify, replay, report."""
import concurrent.futures, json, multiprocessing, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit as U
import replay as R
from registry import PROPS
from rs2verus import Unsupported

VERIF = U.VERIF
TRUST_COMMON = ["Verus 0.2026.09.13 and its Z3 back end", "tools/rx (syn) and tools/vx/rs2verus.py: the mechanical extraction and its rewrites",
                "prelude/*.rs: contracts stated for std/dependency items (external_body shims)"]


def fn_of(ob):
    return ob.split("|")[0]


def match_fn(key, pats):
    """pats None = every function"""
    if pats is None:
        return True
    base = key.split("__")[0] if "__" in key else key
    return key in pats or base in pats


def run_unit(name, rlimit, log):
    """returns dict with per-function verdicts"""
    try:
        u = U.make_unit(name)
    except (Unsupported, RuntimeError) as e:
        return {"dead": f"{type(e).__name__}: {e}"}
    for _ in range(4):
        res = run_once(u, name, rlimit)
        # functions whose generated text the verifier does not accept are set aside (reported as not decided), the rest is decided
        bad = {h["fn"] for h in res.get("hard", []) if h["fn"]} - set(u.unsupported)
        if not res.get("hard") or not bad:
            return again(res, u, name, rlimit)
        for b in bad:
            h = [x for x in res["hard"] if x["fn"] == b][0]
            u.unsupported[b] = "text not accepted by the verifier: " + h["msg"]
            u.unsupported[b.split("__")[0]] = u.unsupported[b]
    return res


def owner(f):
    return f["fn"] or (fn_of(f["ob"]) if f["ob"] else None) or "?"


def again(res, u, name, rlimit):
    """an obligation counts as failed only if no run of the verifier proves it: functions that failed are tried again with other solver settings"""
    t0 = time.time()
    for extra in (("-V", "spinoff-all"), ("--smt-option", "smt.random_seed=7"), ("-V", "spinoff-all", "--smt-option", "smt.random_seed=23")):
        open_ = {owner(f) for f in res.get("failed", [])} | {k for k in res.get("undec", {}) if k not in u.unsupported}
        if res.get("dead") or not open_ or time.time() - t0 > 100:
            break
        r2 = run_once(u, name, min(rlimit, 60), extra, limit=120)
        if r2.get("dead"):
            break
        still = {owner(f) for f in r2["failed"]} | set(r2["undec"])
        res["failed"] = [f for f in res["failed"] if owner(f) in still]
        for k in [k for k in res["undec"] if k not in u.unsupported and k not in still]:
            del res["undec"][k]
        res["again"] = res.get("again", []) + [" ".join(extra)]
    return res


def run_once(u, name, rlimit, extra=(), limit=600):
    try:
        text = u.generate()
    except (Unsupported, RuntimeError) as e:
        return {"dead": f"{type(e).__name__}: {e}"}
    gen = os.path.join(U.BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    p = os.path.join(gen, name + ".rs")
    open(p, "w").write(text)
    r = U.run_verus(p, rlimit=rlimit, extra=extra, limit=limit)
    lines = text.split("\n")
    res = {"unit": u, "text": text, "path": p, "run": r, "failed": [], "hard": [], "undec": dict(u.unsupported)}
    spans = fn_spans(lines)
    for e in r["errors"]:
        msg, sp = U.describe(e, lines)
        if msg.startswith("aborting due to"):
            continue
        ob = None
        for s in sp:
            if s[3]:
                ob = s[3]
        prim = [s for s in sp if s[4]] or sp
        # the function in whose body it happened
        where = None
        for s in sp:
            if s[2] and ("at the end of" in s[2] or "at this exit" in s[2]):
                where = enclosing(spans, s[0])
        if where is None and prim:
            # pre-condition failures: primary = the call, label on the callee's clause
            calls = [s for s in sp if enclosing(spans, s[0])]
            where = enclosing(spans, prim[0][0]) or (enclosing(spans, calls[0][0]) if calls else None)
        if "precondition" in msg:
            for s in sp:
                if s[2] is None or "failed precondition" not in (s[2] or ""):
                    w = enclosing(spans, s[0])
                    where = w or where
        rl = "rlimit" in msg or "Resource limit" in msg or "timed out" in msg.lower()
        if where is None and prim:
            where = enclosing(spans, prim[0][0])
        item = {"msg": msg, "ob": ob, "fn": where, "spans": sp, "rendered": e.get("rendered", "")}
        if rl:
            res["undec"][where or "?"] = "resource limit"
        elif is_verify_msg(msg):
            res["failed"].append(item)
        else:
            res["hard"].append(item)
    if r.get("timeout"):
        res["dead"] = "verifier timed out"
    if res["hard"] or (not r["ok"] and not res["failed"] and not res["undec"]):
        # not a verification result: the generated text is rejected (type error, unsupported feature...)
        res["dead"] = "generated text rejected: " + "; ".join((h["msg"] + " @ " + str(h["spans"][0][:2] if h["spans"] else "")) for h in res["hard"][:3]) + r.get("stderr", "")[-300:] * (not res["hard"])
        res["dead_items"] = res["hard"]
    return res


VERIFY_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
               "possible division by zero", "decreases not satisfied", "could not prove termination", "possible bit shift", "unable to prove", "cannot show", "possible truncation",
               "might be out of bounds", "requires not satisfied", "index")


def is_verify_msg(m):
    return any(x in m for x in VERIFY_MSGS)


def fn_spans(lines):
    """[(start, end, key)] of emitted exec functions, from the //@fn markers"""
    out = []
    cur = None
    for i, l in enumerate(lines, 1):
        m = re.match(r"//@fn (\S+)", l)
        if m:
            cur = (i, m.group(1))
        if l.startswith("//@endfn") and cur:
            out.append((cur[0], i, cur[1])); cur = None
    return out


def enclosing(spans, n):
    for a, b, k in spans:
        if a <= n <= b:
            return k
    return None


def vacuity(name, log):
    """every function under contract must NOT prove `ensures false` from its requires and invariants"""
    u = U.make_unit(name)
    text = u.generate(vac=True)
    p = os.path.join(U.BUILD, "gen", name + "_vac.rs")
    open(p, "w").write(text)
    r = U.run_verus(p, rlimit=8, limit=150)
    if r.get("timeout"):
        return set(), set(), r
    want = set(re.findall(r"//@ob (\S+)\|vac", text))
    lines = text.split("\n")
    got = set()
    spans = fn_spans(lines)
    for e in r["errors"]:
        msg, sp = U.describe(e, lines)
        for s in sp:
            if s[3] and s[3].endswith("|vac"):
                got.add(s[3].split("|")[0])
        if "rlimit" in msg or "Resource limit" in msg:
            for s in sp:
                k = enclosing(spans, s[0])
                if k:
                    got.add(k.replace("__vac", ""))
    return want, got, r


def vacuity_job(name):
    try:
        want, got, _ = vacuity(name, None)
        return want, got
    except Exception:
        return set(), set()


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    P = PROPS[prop]
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    rp_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rp_dir, exist_ok=True)
    rlimit = 60 if tier == "quick" else 200
    total = 0; failed = []; undecided = []; fns = []; smt_ms = 0; cmds = []; obs_failed = set(); assumed = []; vac_info = []; per_fn = []
    inlined = []
    # the vacuity runs and the replays go on beside the proofs
    pool = concurrent.futures.ProcessPoolExecutor(6, mp_context=multiprocessing.get_context("fork"))
    vacs = {u: pool.submit(vacuity_job, u) for u in P["units"]}
    quick = {} if tier == "thorough" else {f: pool.submit(R.run_family, f, prop, seed, "quick") for f in P.get("replay", [])}
    for uname, spec in P["units"].items():
        core, deps = spec.get("core"), spec.get("deps", [])
        r = run_unit(uname, rlimit, None)
        if r.get("dead"):
            undecided.append(f"unit {uname}: {r['dead']}")
            if "unit" not in r:
                continue
        u = r["unit"]
        cmds.append(r["run"]["cmd"])
        inlined += sorted(u.inlined)
        mine = []
        for k in u.emitted:
            if match_fn(k, core) or match_fn(k, deps):
                mine.append(k)
        if core is not None:
            for k in list(core) + list(deps):
                if k not in u.unsupported and not any(match_fn(e, [k]) for e in u.emitted):
                    undecided.append(f"{uname}: {k} not extracted")
        for k, why in r["undec"].items():
            if k == "?" or match_fn(k, core) or match_fn(k, deps):
                undecided.append(f"{uname}: {k}: {why}")
        fns += [f"{uname}:{k}" for k in mine]
        if not r.get("dead"):
            smt_ms += r["run"].get("times", {}).get("smt", {}).get("total", 0)
            # obligations: every named clause of these functions, plus one safety/termination obligation per function
            obl = u.clauses(r["text"], mine, prop)
            total += len(obl) + len(mine)
            bad = set()
            for f in r["failed"]:
                k = f["fn"] or (fn_of(f["ob"]) if f["ob"] else None)
                lab = f["ob"].split("|")[1].split(":")[-1] if f["ob"] else ""
                lp = re.match(r"(C\d\d)_", lab)
                if lp and lp.group(1) != prop and not match_fn(k or '', deps):
                    # another property's clause: it alarms there; here the proofs that may rest on it are not counted
                    if match_fn(k or '', core):
                        undecided.append(f"{uname}: {k}: clause {lab} of another property is not proved")
                    continue
                if k is None:
                    # a lemma over the contracts: depends on source items (enum variants, constants)
                    undecided.append(f"{uname}: lemma fails: {f['msg']}")
                    continue
                if match_fn(k, core) and k in spec.get("labelled", []) and not (lp and lp.group(1) == prop):
                    undecided.append(f"{uname}: {k}: {f['msg']} ({lab or 'proof step'})")
                    bad.add((k, f["ob"] or f["msg"]))
                elif match_fn(k, core) and not f["ob"] and re.search(r"arithmetic|division|decreases|termination|bit shift|truncation", f["msg"]):
                    # machine arithmetic or termination not shown for this text: undecided, the named clauses decide
                    undecided.append(f"{uname}: {k}: {f['msg']}")
                    bad.add((k, f["msg"]))
                elif match_fn(k, core):
                    name = f"{uname}::{k} [{(f['ob'] or f['msg']).split('|')[-1]}] {f['msg']}"
                    failed.append({"name": name, "fn": k, "unit": uname, "rendered": f["rendered"], "shape_ok": u.shape_ok(k)})
                    bad.add((k, f["ob"] or f["msg"]))
                elif match_fn(k, deps):
                    undecided.append(f"{uname}: contract of {k} not proved: {f['msg']}")
                    bad.add((k, f["ob"] or f["msg"]))
            obs_failed |= bad
        assumed += [f"{uname}: {k} (assumed contract)" if not c.proved_in else f"{uname}: {k} (contract proved in unit {c.proved_in})" for k, c in u.c.fns.items() if c.assumed]
        if not r.get("dead"):
            want, got = vacs[uname].result()
            want = {k for k in want if match_fn(k, core) or match_fn(k, deps)}
            missing = want - got
            vac_info.append(f"{uname}: {len(want) - len(missing)}/{len(want)} functions refute `ensures false`")
            if missing and not undecided and not failed:
                undecided.append(f"{uname}: vacuous contract suspected for {sorted(missing)}")
    discharged = total - len(obs_failed)
    # ---------------- executable contracts against the real code
    rep = {"ok": None, "why": "no replay for this property", "fails": [], "evals": 0, "distinct": 0, "samples": []}
    reps = []
    budget_tier = "thorough" if (tier == "thorough" or failed or undecided) else "quick"
    for fam in P.get("replay", []):
        o = quick[fam].result() if fam in quick else None
        if budget_tier == "thorough" and (o is None or not o["fails"]):
            o = R.run_family(fam, prop, seed, "thorough")
        reps.append((fam, o))
    fails = [dict(f, family=fam) for fam, x in reps for f in x["fails"]]
    known = known_findings(prop)
    printed = set()
    live = []
    for f in fails:
        hit = [k for k in known if k["key"] == f["fail"] and re.search(k["match"], f["input"] + " " + f["what"])]
        if hit:
            if hit[0]["text"] not in printed:
                print(f"KNOWN-FINDING: property={prop} {hit[0]['text']}")
                printed.add(hit[0]["text"])
        else:
            live.append(f)
    rc = 0
    viol = 0
    reason = []
    if live:
        viol = len(live)
        path = os.path.join(rp_dir, prop + ".json")
        json.dump({"property": prop, "kind": "failing-input", "failures": live, "failed_obligations": [f["name"] for f in failed],
                   "undecided": undecided, "how": "re-run this check; the case is evaluated against the real code by replay/probes"}, open(path, "w"), indent=1)
        for f in live[:3]:
            print(f"  {f['fail']}: {f['what'][:600]}\n    input: {f['input'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif failed and any(f["shape_ok"] for f in failed):
        viol = len(failed)
        path = os.path.join(rp_dir, prop + ".txt")
        with open(path, "w") as fh:
            fh.write(f"property {prop}: failed obligations\n")
            for f in failed:
                fh.write("\n== " + f["name"] + "\n" + f["rendered"] + "\n")
            fh.write("\nreplay: " + json.dumps([(a, {k: v for k, v in b.items() if k != 'samples'}) for a, b in reps]) + "\n")
        for f in failed:
            print("  failed obligation:", f["name"])
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1
    else:
        for f in failed:
            undecided.append(f"{f['unit']}: {f['fn']}: loop structure differs from the one the annotations were written for; {f['name']}")
    proved = not failed and not undecided and total > 0
    evals = sum(x.get("evals", 0) for _, x in reps)
    cov = {"obligations": total, "discharged": max(0, discharged), "checker_cmd": "; ".join(cmds) or "none",
           "trusted_base": TRUST_COMMON + P.get("trusted", []) + assumed,
           "functions_under_contract": fns, "inlined_helpers": inlined, "solver_time_ms": smt_ms, "back_end": "Verus (Z3)", "vacuity": vac_info,
           "not_decided_by_proof": undecided,
           "failed_obligations": [f["name"] for f in failed],
           "bounded_replay": {"what": "the same contracts executed against the real code on enumerated and seeded inputs; bounded, not counted as proved",
                              "families": [{"family": fam, "evaluations": x.get("evals", 0), "distinct_nontrivial": x.get("distinct", 0), "samples": x.get("samples", [])[:2],
                                            "note": x.get("why", "")} for fam, x in reps]},
           "evaluations": evals, "distinct_nontrivial": sum(x.get("distinct", 0) for _, x in reps),
           "rule": P.get("rule", "enumerated and seeded random inputs; non-trivial as counted by the probe"),
           "samples": [s for _, x in reps for s in x.get("samples", [])][:4]}
    level = "proof" if proved or rc == 1 else "other"
    if level == "other":
        cov["explanation"] = "The verifier did not decide this property on this tree (see not_decided_by_proof); only the bounded replay of the contracts against the real code stands in, which is labelled bounded and not counted as proved."
        print(f"NOT-PROVED property={prop}: " + "; ".join(undecided)[:1500])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{prop}: obligations {total}, discharged {max(0, discharged)}, replay evaluations {evals}, {round(time.time() - t0, 1)} s, {'PROVED' if proved else 'VIOLATED' if rc else 'BOUNDED ONLY'}")
    if rc == 0 and not proved and not any(x["ok"] for _, x in reps):
        print("neither the verifier nor the replay could decide this property on this tree: " + "; ".join(str(x.get("why")) for _, x in reps)[:1000])
        rc = 2
    pool.shutdown(wait=True, cancel_futures=True)
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d.get("status") == "open":
                    out.append(d)
    return out


if __name__ == "__main__":
    main()
