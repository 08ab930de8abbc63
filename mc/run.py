"""Command line: run.py PROPERTY [quick|thorough] [--replay FILE]

Exit 0 if the property held on everything explored, 1 (and a VIOLATION line) if it did not.
"""
import argparse
import fnmatch
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, explore                                                      # noqa: E402

VERIF = env.VERIF


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--only", help="only units whose name matches this pattern")
    p.add_argument("--times", action="store_true")
    args = p.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = importlib.import_module("mc.checks." + args.prop.lower())
    budget = {"quick": 700, "thorough": 24 * 3600}[args.tier]
    failures, total, skipped, times = [], None, [], []
    try:
        check.setup(args.tier)
        units = list(check.units(args.tier))
    except Exception:
        import traceback
        failures.append(("setup", traceback.format_exc()))
        units = []
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        units = [(n, fn) for n, fn in units if n == rec["unit"]]
    if args.only:
        units = [(n, fn) for n, fn in units if fnmatch.fnmatch(n, args.only)]
    names = [n for n, _ in units]
    assert len(set(names)) == len(names), "unit names are not unique"
    if not failures:
        total, skipped, times = explore.run_units(args.prop, args.tier, seed, units, t0 + budget)
        failures = total.failures
    known = known_findings(args.prop)
    new, seen = [], set()
    for key, msg in failures:
        for k in known:
            if fnmatch.fnmatchcase(key, k["match"]):
                seen.add(k["id"])
                break
        else:
            new.append((key, msg))
    for k in known:
        if k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (args.prop, k["what"]))
    level = check.LEVEL
    if total is not None:
        cov = {"samples": total.samples[:3], "units": len(units), "exhaustive": not skipped,
               "bounds": check.BOUNDS[args.tier] if isinstance(check.BOUNDS, dict) else check.BOUNDS}
        if level == "model_checking":
            cov.update(states=len(total.states), transitions=total.transitions,
                       traces_validated_against_impl=total.traces,
                       oracle_evaluations=total.evaluations)
        else:
            cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.distinct), rule=check.RULE)
        if skipped:
            cov["skipped_units"] = skipped[:20]
    else:
        cov = {"exhaustive": False, "samples": [], "explanation": "set-up failed"}
    evidence = {"property": args.prop, "tier": args.tier, "seed": seed, "level": level, "coverage": cov,
                "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
                "violations": len(new)}
    if not (args.replay or args.only):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", args.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print("%s %s: %s in %.1f s, %d failures" % (
        args.prop, args.tier,
        {k: v for k, v in cov.items() if isinstance(v, (int, bool))}, time.time() - t0, len(new)))
    if args.times:
        for t, n in times[:12]:
            print("   %.1f s %s" % (t, n))
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        key, msg = new[0]
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (args.prop, explore.digest(key).hex()))
        with open(path, "w") as f:
            json.dump({"property": args.prop, "tier": args.tier, "unit": key.split(":")[0], "key": key,
                       "message": msg, "how": "python -m mc.run %s %s --replay %s" % (args.prop, args.tier, path),
                       "all": [k for k, _ in new]}, f, indent=1)
        shown, groups = 0, set()
        for k, m in new:                # one per kind of message
            g = m.strip().split("\n")[-1][:60]
            if g not in groups and shown < 6:
                groups.add(g)
                shown += 1
                print("FAILED %s\n    %s" % (k, "\n    ".join(m.strip()[:1200].split("\n")[-8:])))
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
