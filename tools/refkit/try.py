"""Applies each behaviour-preserving edit to a scratch copy (/tmp/refrepo) and runs the quick checks on it.  Development only."""
import os, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
import refs
S = "/tmp/refrepo"
if not os.path.exists(S):
    subprocess.run(["cp", "-a", "/repo", S], check=True)
for i, props, f, reps in refs.REFS:
    if sys.argv[1:] and i not in sys.argv[1:] and not any(i.startswith(a[:-1]) for a in sys.argv[1:] if a.endswith("*")):
        continue
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
    t = open(f"{S}/{f}").read()
    for o, n in reps:
        assert t.count(o) >= 1, (i, o)
        t = t.replace(o, n, 1)
    open(f"{S}/{f}", "w").write(t)
    for p in props:
        t0 = time.time()
        r = subprocess.run(["bash", V + "/check.sh", p, "--quick"], capture_output=True, text=True, env=dict(os.environ, VX_REPO=S))
        v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "NOT-PROVED"))]
        st = "ok-proved" if r.returncode == 0 and not v else "ok-bounded" if r.returncode == 0 else "ALARM" if r.returncode == 1 else "NO-ANSWER"
        print(f"{i}: {p} {st} {time.time()-t0:.0f}s {'; '.join(v)[:400]} {(r.stdout[-300:] + r.stderr[-300:]) if r.returncode not in (0, 1) else ''}", flush=True)
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
