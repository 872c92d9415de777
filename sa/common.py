"""Check harness: obligations, evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

import ir
from ir import VERIF, AnalysisBroken, rel

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check(object):
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obs = []           # (key, ok, where, detail)
        self.keys = set()
        self.analysed = {}      # kind -> set of names
        self.notes = []
        self.min = {}
        self.dup = 0
        self.undecided = []
        self.parts = 0

    def ob(self, key, ok, where="", detail=""):
        """one obligation of the property, decided on the current source"""
        if isinstance(where, tuple):
            where = "%s:%s" % where
        if not ok:          # one report per construct
            if key in self.keys:
                self.dup += 1
                return ok
            self.keys.add(key)
        self.obs.append((key, bool(ok), where, detail))
        return ok

    def part(self, name, fn, *args):
        """one construct of the program; if it cannot be analysed the rest still is, and the gap is reported"""
        self.parts = getattr(self, "parts", 0) + 1
        try:
            return fn(*args)
        except AnalysisBroken as e:
            self.undecided.append((name, str(e)[:300]))
        except RecursionError:
            self.undecided.append((name, "recursion limit"))
        return None

    def saw(self, kind, name):
        self.analysed.setdefault(kind, set()).add(name)

    def need(self, what, n, minimum):
        """instance-count floor confirmed by hand"""
        self.min[what] = (n, minimum)
        if n < minimum:
            raise AnalysisBroken("%s: %d instances, expected at least %d" % (what, n, minimum))


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return {}
    d = json.load(open(KNOWN))
    return {k["key"]: k["what"] for k in d.get("findings", []) if k["property"] == pid and k.get("status", "open") == "open"}


def write_evidence(pid, tier, cov, wall):
    d = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 2)}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def run_check(pid, title, fn, tier):
    """fn(db, check) fills obligations; returns the exit code"""
    t0 = time.time()
    try:
        db = ir.load()
        c = Check(pid, title)
        c.tier = tier
        fn(db, c)
        if not c.obs:
            raise AnalysisBroken("no obligations generated")
        if c.undecided and len(c.undecided) * 2 > c.parts:
            raise AnalysisBroken("%d of %d constructs could not be analysed, e.g. %s" % (len(c.undecided), c.parts, c.undecided[0]))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        write_evidence(pid, tier, {"explanation": "analysis could not be carried out: %s" % e}, time.time() - t0)
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        write_evidence(pid, tier, {"explanation": "internal error"}, time.time() - t0)
        return 3
    for n, r in c.undecided:
        print("NOT-ANALYSED property=%s %s: %s" % (pid, n, r[:160]))
    known = known_findings(pid)
    bad = [o for o in c.obs if not o[1]]
    new = [o for o in bad if o[0] not in known]
    old = [o for o in bad if o[0] in known]
    for k, _, where, detail in old:
        print("KNOWN-FINDING: property=%s %s (%s: %s)" % (pid, known[k], where, k))
    cov = {
        "explanation": c.rule,
        "translation_units": len(db.units),
        "functions_in_program": len(db.functions),
        "analysed": {k: sorted(v)[:400] for k, v in c.analysed.items()},
        "analysed_counts": {k: len(v) for k, v in c.analysed.items()},
        "obligations": len(c.obs),
        "discharged": len(c.obs) - len(bad),
        "known_findings": [o[0] for o in old],
        "violations": [{"key": o[0], "where": o[2], "detail": o[3]} for o in new],
        "instance_floors": {k: {"found": v[0], "floor": v[1]} for k, v in c.min.items()},
        "samples": [{"obligation": o[0], "where": o[2], "held": o[1]} for o in c.obs[:: max(1, len(c.obs) // 12)]][:14],
        "not_analysed": [{"construct": n, "reason": r} for n, r in c.undecided],
        "notes": c.notes,
    }
    write_evidence(pid, tier, cov, time.time() - t0)
    if new:
        path = os.path.join(os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence"), pid + ".violation.json")
        with open(path, "w") as f:
            json.dump(cov["violations"], f, indent=1)
        for k, _, where, detail in new[:40]:
            print("%s: [%s] %s: %s" % (where, pid, k, detail))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s obligations=%d known=%d time=%.1fs (program %d functions, load %.1fs)" % (
        pid, len(c.obs), len(old), time.time() - t0, len(db.functions), db.load_s))
    return 0
