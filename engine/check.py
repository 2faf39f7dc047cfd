#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property from the current source of the repository.
exit 0: every obligation holds (or is a listed known finding)
exit 1: a construct violates the property (VIOLATION line, report in .cache/reports)
exit 3: the analysis itself is broken (vanished anchor, nothing analysed)
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "tools"))
import facts
from facts import AnalysisBroken

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.mins = {}
        self.analysed = set()
        self.notes = []
        self.assumptions = []
        self.counts = {}

    def ob(self, rule, instance, ok, where="", why=""):
        """one obligation; `instance` names the construct independently of line numbers"""
        self.obs.append((rule, instance, bool(ok), where, why))

    def need(self, rule, n):
        """at least n obligations of this rule were confirmed by hand on the pinned tree"""
        self.mins[rule] = n

    def fn(self, *names):
        self.analysed.update(names)

    def count(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()[len("key="):]] = desc
    return out


def main():
    import props
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    t0 = time.time()
    spec = [q for q in props.P if q["id"] == pid]
    if not spec or not spec[0]["check"]:
        print("no check for", pid)
        return 3
    spec = spec[0]
    R = Report(pid, tier)
    try:
        F = facts.load()
        mod, _, fn = spec["check"].partition(":")
        getattr(importlib.import_module("rules." + mod), fn)(F, R)
        counts = {}
        for r, i, ok, w, why in R.obs:
            counts[r] = counts.get(r, 0) + 1
        if not R.obs:
            raise AnalysisBroken("no obligations at all")
        bad = any(not o[2] for o in R.obs)
        for r, n in R.mins.items():
            if counts.get(r, 0) < n and not bad:
                raise AnalysisBroken("rule %s has %d instances, at least %d expected" % (r, counts.get(r, 0), n))
    except Exception as e:
        tb = str(e) if isinstance(e, AnalysisBroken) else "engine error\n" + traceback.format_exc()[-2500:]
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, tb))
        # violations established before the analysis gave up still count
        kn0 = known(pid)
        if not any(not o[2] and "%s|%s" % (o[0], o[1]) not in kn0 for o in R.obs):
            return 3
    kn = known(pid)
    fails, found, seen = [], [], set()
    for o in R.obs:
        if o[2]:
            continue
        key = "%s|%s" % (o[0], o[1])
        if key in seen:
            continue
        seen.add(key)
        (found if key in kn else fails).append((key, o))
    wall = time.time() - t0
    ok = sum(1 for o in R.obs if o[2])
    distinct = len(set((o[0], o[1]) for o in R.obs))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=spec["level"],
              coverage=dict(explanation=spec["note"] or spec["technique"], obligations=len(R.obs), discharged=ok,
                            distinct_instances=distinct, per_rule=counts, translation_units=len(F.units),
                            functions_in_scope=len(F.fns), functions_analysed=sorted(R.analysed)[:400],
                            functions_analysed_count=len(R.analysed), known_findings=[k for k, _ in found],
                            samples=[dict(rule=o[0], instance=o[1], ok=o[2], where=o[3]) for o in R.obs[:: max(1, len(R.obs) // 12)][:14]],
                            **R.counts),
              assumptions=R.assumptions + ["the extracted syntax trees are those of the default Linux build with LLVM 18"],
              wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, o in found:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, k, o[3], kn[k]))
    if fails:
        rd = os.path.join(facts.CACHE, "reports")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            for k, o in fails:
                f.write("%s\n  where: %s\n  why: %s\n" % (k, o[3], o[4]))
        for k, o in fails[:40]:
            print("%s: %s: %s" % (o[3], k, o[4]))
        print("%d obligations, %d violated (%d listed as known)" % (len(R.obs), len(fails) + len(found), len(found)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property %s holds: %d obligations (%d distinct) over %d rules, %d functions analysed, %d units, %.1fs" % (
        pid, len(R.obs), distinct, len(counts), len(R.analysed), len(F.units), wall))
    if "-v" in args:
        for r, n in sorted(counts.items()):
            print("  ", r, n)
    return 0


if __name__ == "__main__":
    sys.exit(main())
