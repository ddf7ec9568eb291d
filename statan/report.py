"""Obligation bookkeeping, evidence and exit codes."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.ok_ = []           # (rule, construct)
        self.bad_ = []          # (rule, construct, msg)
        self.und_ = []          # (rule, construct, why)
        self.functions = set()
        self.extra = {}
        self.assumptions = []
        self.rules = {}
        self.samples = []
        self.floor = {}         # rule -> minimum number of decided obligations

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, sample=None):
        self.ok_.append((rule, construct))
        if sample is not None and len(self.samples) < 6:
            self.samples.append({"rule": rule, "construct": construct, "derived": sample})

    def bad(self, rule, construct, msg):
        self.bad_.append((rule, construct, str(msg)))

    def undecided(self, rule, construct, why):
        self.und_.append((rule, construct, str(why)))

    def merge(self, other):
        self.ok_ += other.ok_
        self.bad_ += other.bad_
        self.und_ += other.und_
        self.functions |= other.functions
        self.rules.update(other.rules)
        self.samples = (self.samples + other.samples)[:8]

    def finish(self, verbose=False):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            with open(kf) as f:
                known = [k for k in json.load(f)["findings"] if k.get("property") == self.pid and k.get("status") == "known"]
        kmap = {(k["rule"], k["construct"]): k for k in known}
        viol, seen = [], set()
        for r, c, m in self.bad_:
            if (r, c) in kmap:
                if (r, c) not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, kmap[(r, c)]["what"]))
                    seen.add((r, c))
                continue
            viol.append((r, c, m))
        und = {}
        for r, c, w in self.und_:
            und.setdefault((r, c), w)
        for (r, c), w in sorted(und.items())[:60]:
            print("UNDECIDED [%s] %s: %s" % (r, c, w[:300]))
        decided = {}
        for r, c in self.ok_:
            decided[r] = decided.get(r, 0) + 1
        for r, c, m in self.bad_:
            decided[r] = decided.get(r, 0) + 1
        broken = [r for r, n in self.floor.items() if decided.get(r, 0) < n]
        rc = 0
        if viol:
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", "replay", self.pid + ".txt")
            with open(path, "w") as f:
                f.write("property %s: %d violated obligation(s)\nre-run: cd %s && python3-vt check.py %s --tier %s\n\n" % (
                    self.pid, len(viol), VERIF, self.pid, self.tier))
                for r, c, m in viol:
                    f.write("[%s] %s\n    rule: %s\n    %s\n\n" % (r, c, self.rules.get(r, ""), m))
            for r, c, m in viol[:12]:
                print("  violated [%s] %s: %s" % (r, c, m[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        elif broken:
            print("ANALYSIS-BROKEN property=%s: too few decided obligations for %s" % (
                self.pid, ", ".join("%s (%d<%d)" % (r, decided.get(r, 0), self.floor[r]) for r in broken)))
            rc = 2
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source: abstract interpretation of the library's graph-building "
                               "code into a dataflow IR, then rule checks per obligation; nothing of the library is executed.",
                "obligations_decided": len(self.ok_) + len(self.bad_),
                "obligations_per_rule": decided,
                "undecided": len(und),
                "undecided_list": ["[%s] %s: %s" % (r, c, w[:200]) for (r, c), w in sorted(und.items())][:80],
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "rules": self.rules,
                "samples": self.samples,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d obligations decided over %d functions, %d undecided, %d violation(s), %.1fs" % (
            self.pid, self.tier, len(self.ok_) + len(self.bad_), len(self.functions), len(und), len(viol), time.time() - self.t0))
        return rc
