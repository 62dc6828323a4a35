"""Writes contracts/shapes.json: the loop shapes of every function under contract on the current tree (run after changing a contract or fixing /repo)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/vx")
import unit as U
out = {}
for f in sorted(glob.glob(V + "/contracts/*.vc")):
    n = os.path.basename(f)[:-3]
    u = U.make_unit(n)
    u.generate()
    out[n] = {k: v for k, v in sorted(u.shapes.items()) if v}
json.dump(out, open(V + "/contracts/shapes.json", "w"), indent=1, sort_keys=True)
