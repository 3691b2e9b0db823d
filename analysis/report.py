"""Obligations, known findings, evidence and verdict of one check."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = {}            # key -> (ok, message, where)
        self.undecided = {}
        self.counts = {}
        self.notes = []
        self.floors = []
        self.samples = []
        self.t0 = time.time()
        self.rule = ""
        self.assumptions = []

    def ob(self, key, ok, msg="", where=""):
        """One obligation; a key that fails once stays failed."""
        old = self.obs.get(key)
        if old is None or (old[0] and not ok):
            self.obs[key] = (bool(ok), msg, where)
        return ok

    def undec(self, key, why, where=""):
        self.undecided.setdefault(key, (why, where))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """At least n instances of `what` must have been analysed."""
        self.floors.append((what, n))

    def merge(self, d):
        """Merge the plain-data result of a worker."""
        for key, ok, msg, where in d.get("obs", []):
            self.ob(key, ok, msg, where)
        for key, why, where in d.get("undec", []):
            self.undec(key, why, where)
        for k, n in d.get("counts", {}).items():
            self.count(k, n)
        for s in d.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)

    def plain(self):
        return {"obs": [(k, o[0], o[1], o[2]) for k, o in self.obs.items()],
                "undec": [(k, w[0], w[1]) for k, w in self.undecided.items()], "counts": self.counts, "samples": self.samples}

    def finish(self, info):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN))["findings"]:
                if e["property"] == self.prop and e.get("status", "open") == "open":
                    known[e["key"]] = e
        bad = sorted((k, o) for k, o in self.obs.items() if not o[0])
        viol, seen = [], []
        for k, o in bad:
            if k in known:
                seen.append(k)
            else:
                viol.append((k, o))
        for what, n in self.floors:
            if self.counts.get(what, 0) < n:
                viol.append(("floor:" + what, (False, "only %d %s analysed, at least %d expected: the rule no longer sees what it was written for" % (self.counts.get(what, 0), what, n), "")))
        for k in seen:
            print("KNOWN-FINDING: property=%s %s -- %s" % (self.prop, k, known[k]["what"]))
        total = len(self.obs)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's MIR. Rule: " + self.rule,
                "obligations": total, "discharged": sum(1 for o in self.obs.values() if o[0]),
                "known_findings_seen": seen, "undecided": [{"site": k, "why": w[0]} for k, w in sorted(self.undecided.items())],
                "analysed": dict(self.counts), **info,
                "samples": self.samples[:12] or [{"obligation": k, "detail": o[1], "where": o[2]} for k, o in sorted(self.obs.items())[:10]],
                "obligation_keys": sorted(self.obs)[:400],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if viol:
            d = os.path.join(VERIF, ".work", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "rule": self.rule, "violations": [{"key": k, "what": o[1], "where": o[2]} for k, o in viol]}, f, indent=1)
            for k, o in viol:
                print("  %s: %s [%s]" % (k, o[1], o[2]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: %d obligations, %d known findings, %d undecided, %.1fs" % (self.prop, total, len(seen), len(self.undecided), time.time() - self.t0))
        return 0
