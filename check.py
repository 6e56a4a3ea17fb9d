#!/usr/bin/env python3
"""Decide one property:  python3 check.py C03 [--tier quick|thorough]"""
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading

threading.stack_size(512 << 20)

from vp import load, judge  # noqa: E402
from vp.load import Broken  # noqa: E402


def known(pid):
    """identities of the recorded findings of this property"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    R = judge.Report(pid)
    try:
        m = importlib.import_module("vp.rules." + pid.lower())
        P = load.load(m.HARNESS)
        kn = known(pid)
        R.known = kn
        R.jobs = []
        m.check(R, P, tier)
        R.run_jobs()
        if hasattr(m, "finish"):
            m.finish(R)
        if not R.items or not R.count("proved") and not R.count("violated"):
            raise Broken("no instance of the rules was decided")
        floor = getattr(m, "FLOOR", 1)
        if len(R.items) < floor and all(i["status"] == "proved" for i in R.items):
            raise Broken("only %d rule instances, at least %d were confirmed by hand" % (len(R.items), floor))
    except Broken as e:
        print("ERROR property=%s the analysis cannot run: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    bad = [i for i in R.items if i["status"] == "violated"]
    new = [i for i in bad if i["key"] not in kn]
    old = [i for i in bad if i["key"] in kn]
    fns = sorted(R.fns)
    srcfns = [f for f in fns if P.funcs.get(f) is None or not P.funcs[f]["file"].startswith(HERE)]
    names = sorted({P.funcs[f]["n"] if f in P.funcs else f for f in srcfns})
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    rep = os.path.join(HERE, "out", "%s.txt" % pid)
    rules = {}
    for i in R.items:
        rules.setdefault(i["rule"], {"proved": 0, "undecided": 0, "violated": 0})[i["status"]] += 1
    with open(rep, "w") as f:
        f.write("property %s, tier %s\n" % (pid, tier))
        for i in bad:
            f.write("\nVIOLATED rule=%s%s\n  instance: %s\n  at: %s\n  %s\n" % (i["rule"], " (known finding)" if i["key"] in kn else "", i["instance"], i["where"], i["what"]))
        for i in R.items:
            if i["status"] == "undecided":
                f.write("\nundecided rule=%s instance: %s (%s)\n" % (i["rule"], i["instance"], i["what"]))
        f.write("\nanalysed functions (%d):\n" % len(names))
        for n in names:
            f.write("  %s\n" % n)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    seen = set()
    for i in R.items:
        if i["rule"] not in seen:
            seen.add(i["rule"])
            samples.append("%s: %s -> %s" % (i["rule"], i["instance"], i["status"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": m.EXPLAIN,
            "rule": m.EXPLAIN,
            "rule_instances": len(R.items), "decided_holding": R.count("proved"), "undecided": R.count("undecided"),
            "instances_per_rule": rules,
            "abstract_paths": R.paths,
            "functions_analysed": len(names),
            "functions": names[:400],
            "units_parsed": len(P.units),
            "samples": samples,
            "exhaustive": False,
        },
        "assumptions": getattr(m, "ASSUME", []) + ["the extractor (clang 18 front end) and the library models in vp/models.py describe the compiled program",
                                                 "an instance counted as undecided raises no alarm and proves nothing"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if R.notes:
        ev["coverage"]["notes"] = R.notes
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s instances=%d holding=%d undecided=%d violated=%d functions=%d paths=%d wall=%.1fs" % (
        pid, len(R.items), R.count("proved"), R.count("undecided"), len(bad), len(names), R.paths, time.time() - t0))
    for i in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[i["key"]], i["instance"]))
    for i in new[:20]:
        print("  %s | %s | at %s | %s" % (i["rule"], i["instance"], i["where"], i["what"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def roomy(f):
    """f called below one frame of 8 MB: the interpreter's frame stack then needs no further chunks"""
    def g():
        return f()
    return type(g)(g.__code__.replace(co_stacksize=(1 << 20) + 64), globals(), "g", None, g.__closure__)


if __name__ == "__main__":
    rc = []
    t = threading.Thread(target=roomy(lambda: rc.append(main())))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
