"""Applies each seeded change to a scratch copy, runs the property's quick check against it (VX_REPO), and says whether it was caught.  Development only."""
import json, os, subprocess, sys
S = "/tmp/seedrepo"; V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{i}"; p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
    a = subprocess.run(["git", "-C", S, "apply", d + "/patch.diff"])
    r = subprocess.run(["bash", V + "/check.sh", p, "--quick"], capture_output=True, text=True, env=dict(os.environ, VX_REPO=S))
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "NOT-PROVED"))]
    print(f"{i}: {p} rc={r.returncode} {'; '.join(v)[:300]} | {[l for l in r.stdout.splitlines() if 'failed obligation' in l][:2]}", flush=True)
