"""Collects what a check analysed and found, and writes its evidence."""
import json, os, sys, time
from program import AnalysisError, VERIF

FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.violations = []      # dicts
        self.seen = set()
        self.counts = {}
        self.rules = []
        self.samples = {}
        self.notes = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def inst(self, what, where):
        """One analysed instance (call site, function, obligation)."""
        s = self.samples.setdefault(what, [])
        if where not in s:
            s.append(where)

    def need(self, what, n=1):
        """A rule that matched fewer instances than confirmed by hand decides nothing."""
        have = len(self.samples.get(what, ())) or self.counts.get(what, 0)
        if have < n:
            raise AnalysisError("rule instances vanished: %s: %d < %d" % (what, have, n))

    def violation(self, key, where, text, trace=None):
        """key: stable identity (function and construct) used by the findings file."""
        k = (key, text)
        if k in self.seen:
            return
        self.seen.add(k)
        self.violations.append({"key": key, "where": where, "what": text, "path": trace or []})

    def known(self):
        out = {}
        try:
            with open(FINDINGS) as f:
                for l in f:
                    l = l.strip()
                    if l.startswith("known: property=%s " % self.pid):
                        rest = l.split("key=", 1)[1]
                        k, _, what = rest.partition(" :: ")
                        out[k] = what
        except OSError:
            pass
        return out

    def fresh(self):
        known = self.known()
        return [v for v in self.violations if v["key"] not in known]

    def finish(self, level, technique, assumptions, stats):
        known = self.known()
        new = self.fresh()
        old = {v["key"] for v in self.violations if v["key"] in known}
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {
            "explanation": technique,
            "rules": self.rules,
            "counts": dict(self.counts, **{k: len(v) for k, v in self.samples.items()}),
            "instances": {k: v[:400] for k, v in self.samples.items()},
        }
        cov.update(stats)
        cov["findings"] = [dict(v, known=v["key"] in known) for v in self.violations]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level, "coverage": cov, "assumptions": assumptions,
            "violations": len(new),
            "wall_s": round(time.time() - self.t0, 3),
        }
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(p + ".tmp", p)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k] or k))
        for v in new:
            print("%s: %s: %s [%s]" % (self.pid, v["where"], v["what"], v["key"]))
            for t in v["path"][-12:]:
                print("    via " + t)
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("%s: held on %s" % (self.pid, ", ".join("%s=%s" % kv for kv in sorted(cov["counts"].items()))))
        return 0
