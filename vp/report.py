"""Verdicts, evidence and known findings."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []
        self.und = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assume = []
        self.functions = set()
        self.floors = {}

    def violation(self, key, site, msg, **detail):
        """key identifies the failing construct independently of the run"""
        self.viol.append(dict(key=key, site=site, message=msg, detail=detail))

    def undecided(self, what, why):
        self.und.append(dict(what=str(what)[:300], reason=str(why)[:400]))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        self.floors[name] = n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)

    def known(self):
        try:
            d = json.load(open(os.path.join(VERIF, "findings.json")))
        except FileNotFoundError:
            return []
        return [f for f in d.get("known", []) if f["property"] == self.pid]

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = self.known()
        shown, fresh = set(), []
        for v in self.viol:
            k = next((f for f in known if f["key"] == v["key"]), None)
            if k is None:
                fresh.append(v)
            else:
                shown.add(k["key"])
        for f in known:
            if f["key"] in shown:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        ob = self.counts.get("obligations", 0)
        cov = {
            "explanation": "static analysis of the type-checked program (MIR) of /repo's current tree; nothing of /repo is executed",
            "rules": self.rules,
            "obligations": ob,
            "discharged": self.counts.get("discharged", 0),
            "counts": self.counts,
            "functions_analysed": sorted(self.functions),
            "samples": self.samples,
            "undecided": self.und[:60],
            "undecided_count": len(self.und),
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
            "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        low = [(n, self.counts.get(n, 0), m) for n, m in self.floors.items() if self.counts.get(n, 0) < m]
        if fresh:
            path = os.path.join(EVID, self.pid + ".violations.json")
            with open(path, "w") as f:
                json.dump(fresh, f, indent=1)
            for v in fresh[:8]:
                print("%s: %s" % (v["site"], v["message"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if low and not self.und:
            print("analysis of %s covered less than it must: %s" % (self.pid, low))
            return 2
        print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs" % (
            self.pid, ob, self.counts.get("discharged", 0), len(self.und), len(self.functions), time.time() - self.t0))
        return 0
