"""Collects violations, subtracts the committed known findings, writes evidence."""
import os, json
EVID = os.environ.get("VERIF_EVID")
from ir import VERIF, AnalysisBroken, REPO

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.viol = []; self.cov = {}; self.samples = []
        self.assumptions = []; self.floors = []; self.rule = ""; self.undecided = []; self.P = None
        p = VERIF + "/known_findings.json"
        self.known = [k for k in (json.load(open(p)) if os.path.exists(p) else []) if k["property"] == pid and k["status"] == "known"]
    def violation(self, key, msg, where=""):
        """key: stable identity (function + construct), no line numbers."""
        if any(v["key"] == key for v in self.viol): return
        self.viol.append({"key": key, "msg": msg, "where": where})
    def floor(self, name, got, least):
        """fail as analysis-broken when a rule matches fewer instances than confirmed by hand"""
        self.cov[name] = got
        if got < least: raise AnalysisBroken(f"{name}: only {got} instances found, at least {least} expected (anchor vanished?)")
    def finish(self, wall):
        kk = {k["key"] for k in self.known}
        self.new = [v for v in self.viol if v["key"] not in kk]
        seen = {v["key"] for v in self.viol}
        for k in self.known:
            if k["key"] in seen:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']} [{k['key']}]")
        evid = EVID or VERIF + "/evidence"
        os.makedirs(evid, exist_ok=True)
        replay = f"{evid}/{self.pid}.violations.txt"
        if self.new:
            with open(replay, "w") as f:
                for v in self.new: f.write(f"{v['where']}: {v['msg']}\n    key: {v['key']}\n")
            for v in self.new:
                print(f"{v['where']}: {v['msg']}")
            print(f"VIOLATION property={self.pid} replay={replay}")
        elif os.path.exists(replay): os.remove(replay)
        cov = {"explanation": self.rule, **self.cov, "known_findings_matched": len([k for k in self.known if k["key"] in seen]), "samples": self.samples[:8]}
        if self.P is not None:
            cov["translation_units"] = len(self.P.tus); cov["functions_parsed"] = len(self.P.funcs); cov["helpers_inlined"] = len(self.P.inlined)
        if self.undecided: cov["undecided"] = len(self.undecided); cov["undecided_examples"] = self.undecided[:10]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.new)}
        with open(f"{evid}/{self.pid}.json", "w") as f: json.dump(ev, f, indent=1)
        if not self.new: print(f"OK property={self.pid} " + " ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, int)))
