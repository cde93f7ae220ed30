"""Common runner: obligations, violations, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from .loader import Program, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.prog = Program()
        self.obligations = {}       # rule -> [total, discharged]
        self.violations = []        # dict
        self.samples = []
        self.notes = []
        self.info = {}
        self.assumptions = []
        self._seen = set()

    # ------------------------------------------------------------------
    def ok(self, rule, construct, detail=None):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        o[1] += 1
        if len([s for s in self.samples if s["rule"] == rule]) < 3:
            self.samples.append({"rule": rule, "construct": construct, "verdict": "holds", "detail": detail})

    def fail(self, rule, construct, where, detail):
        """construct: stable identification (class.method:instance), no line numbers."""
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        key = "%s|%s" % (rule, construct)
        if key in self._seen:
            return
        self._seen.add(key)
        self.violations.append({"rule": rule, "construct": construct, "where": where, "detail": detail, "key": key})

    def undecided(self, msg):
        """constructs outside the analysed fragment: listed in the evidence, never an alarm"""
        l = self.info.setdefault("undecided", [])
        if msg not in l:
            l.append(msg)

    def check(self, cond, rule, construct, where, detail):
        if cond:
            self.ok(rule, construct)
        else:
            self.fail(rule, construct, where, detail)
        return cond

    def floor(self, rule, n):
        """Instance-count floor confirmed by reading: fewer means the analysis lost its subject."""
        got = self.obligations.get(rule, [0, 0])[0]
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, got, n))


def load_known(pid):
    if not os.path.exists(KNOWN):
        return {}
    data = json.load(open(KNOWN))
    return dict((e["key"], e) for e in data.get("findings", []) if e["property"] == pid)


def main(pid, run, explanation, assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        ctx = Ctx(pid, tier, seed)
        if ctx.prog.errors:
            raise AnalysisBroken("unparsable sources: %r" % (ctx.prog.errors,))
        run(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s" % pid)
        return 4
    known = load_known(pid)
    new = []
    hit = []
    for v in ctx.violations:
        if v["key"] in known:
            hit.append(v)
        else:
            new.append(v)
    total = sum(o[0] for o in ctx.obligations.values())
    done = sum(o[1] for o in ctx.obligations.values())
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explanation,
            "modules_parsed": len(ctx.prog.modules),
            "source_digest": ctx.prog.digest(),
            "obligations_total": total,
            "obligations_hold": done,
            "per_rule": dict((k, {"instances": v[0], "hold": v[1]}) for k, v in sorted(ctx.obligations.items())),
            "samples": ctx.samples[:40],
            "info": ctx.info,
            "known_findings_seen": [v["key"] for v in hit],
        },
        "assumptions": list(assumptions) + ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("property %s: %d modules, %d obligations, %d hold" % (pid, len(ctx.prog.modules), total, done))
    for k, v in sorted(ctx.obligations.items()):
        print("   rule %-34s instances %4d  hold %4d" % (k, v[0], v[1]))
    for u in ctx.info.get("undecided", ()):
        print("   undecided: %s" % u[:200])
    for v in hit:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (pid, v["construct"], known[v["key"]].get("what", v["detail"]), v["where"]))
    if new:
        rp = os.path.join(evdir, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("  [%s] %s at %s: %s" % (v["rule"], v["construct"], v["where"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
