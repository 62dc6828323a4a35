"""Shared by the Python probes: runs cases against the real modules of the tree under test and reports as JSON lines."""
import itertools, json, random, sys, warnings

warnings.simplefilter("ignore")


class Report:
    def __init__(self):
        self.evals, self.distinct, self.samples, self.fails = 0, set(), [], {}

    def case(self, key, sample=None):
        self.evals += 1
        self.distinct.add(key)
        if sample is not None and len(self.samples) < 8 and self.evals % 37 == 1:
            self.samples.append(str(sample)[:300])

    def fail(self, key, inp, what):
        if key not in self.fails:
            self.fails[key] = 1
            print(json.dumps({"fail": key, "input": str(inp)[:2000], "what": str(what)[:2000]}), flush=True)

    def done(self):
        print(json.dumps({"evals": self.evals, "distinct": len(self.distinct), "samples": self.samples}), flush=True)


def args():
    return sys.argv[1], random.Random(int(sys.argv[2])), sys.argv[3] == "thorough"
