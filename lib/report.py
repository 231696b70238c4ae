"""Obligation bookkeeping, known findings, evidence and exit status."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DIFFKEMP_REPO", "/repo")


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obligations = []      # (rule, construct, ok, detail)
        self.violations = []
        self.notes = {}
        self.analysed = set()
        self.assumptions = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.floors = []

    def ob(self, rule, construct, ok, detail="", where=""):
        """Record one obligation; a failed one is a violation of `rule` at
        `construct` (a stable name, no line numbers)."""
        self.obligations.append((rule, construct, bool(ok)))
        if not ok:
            self.violations.append({"rule": rule, "construct": construct,
                                    "where": where, "detail": detail})
        return ok

    def violate(self, rule, construct, detail, where=""):
        return self.ob(rule, construct, False, detail, where)

    def floor(self, what, n, least):
        """Instance-count floor: fewer instances than confirmed by hand means
        that the analysis lost its anchors, not that the property holds."""
        self.floors.append((what, n, least))

    def note(self, k, v):
        self.notes[k] = v

    def finish(self):
        from lib.pyfront import AnalysisBroken
        known = []
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            known = json.load(open(path)).get("findings", [])
        mine = {(k["rule"], k["construct"]): k for k in known
                if k["property"] == self.pid}
        seen = {}
        fresh = []
        for v in self.violations:
            k = mine.get((v["rule"], v["construct"]))
            if k is not None:
                seen[(v["rule"], v["construct"])] = (k, v)
            else:
                fresh.append(v)
        for k, v in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} "
                  f"[{v['rule']} @ {v['construct']}]")
        # de-duplicate
        uniq = {}
        for v in fresh:
            uniq.setdefault((v["rule"], v["construct"]), v)
        fresh = list(uniq.values())
        if not fresh:
            for what, n, least in self.floors:
                if n < least:
                    raise AnalysisBroken(
                        f"{what}: {n} instances found, at least {least} "
                        f"confirmed by hand")
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rules = {}
        for r, c, ok in self.obligations:
            x = rules.setdefault(r, {"obligations": 0, "discharged": 0})
            x["obligations"] += 1
            x["discharged"] += ok
        samples = []
        for r in rules:
            samples += [f"{r}: {c}" for rr, c, ok in self.obligations
                        if rr == r and ok][:2]
        data = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obligations),
                "discharged": sum(1 for o in self.obligations if o[2]),
                "by_rule": rules,
                "functions_analysed": len(self.analysed),
                "functions_sample": sorted(self.analysed)[:40],
                "floors": [{"what": w, "found": n, "required": m}
                           for w, n, m in self.floors],
                "known_findings": len(seen),
                "samples": samples[:30],
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(fresh),
        }
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(data, f, indent=1)
            f.write("\n")
        print(f"{self.pid}: {len(self.obligations)} obligations, "
              f"{data['coverage']['discharged']} discharged, "
              f"{len(self.analysed)} functions analysed, "
              f"{data['wall_s']} s")
        for r, x in rules.items():
            print(f"  {r}: {x['discharged']}/{x['obligations']}")
        if fresh:
            replay = os.path.join(ev, self.pid + ".violations.json")
            with open(replay, "w") as f:
                json.dump(fresh, f, indent=1)
                f.write("\n")
            for v in fresh:
                print(f"VIOLATION property={self.pid} replay={replay}\n"
                      f"  rule {v['rule']} at {v['construct']} "
                      f"{v['where']}\n  {v['detail']}")
            return 1
        return 0
