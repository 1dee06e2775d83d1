#!/usr/bin/env python3
"""usage: run.py ID | run.py --replay FILE | run.py --list     (environment: VERIF_SEED, VERIF_TIER)"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfrun
from props import PROPS


def check(prop):
    t0 = time.time()
    spec = PROPS[prop]
    known_all = vfrun.load_known().get(prop, {})
    bd = vfrun.BuildDir(prop)
    try:
        try:
            if "py" in spec:
                results = spec["py"](prop, bd, known_all)
            else:
                results = vfrun.run_jobs(prop, spec["jobs"], bd, list(known_all))
        except vfrun.HarnessError as e:
            print("INCONCLUSIVE property=%s: %s" % (prop, e))
            return 2
        ev, cov, samples, distinct, known, viol = vfrun.merge(results)
    finally:
        bd.close()
    for k, (n, msg) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s key=%s (%d times) %s" % (prop, k, n, known_all.get(k, "")))
    coverage = {"evaluations": ev, "distinct_nontrivial": distinct, "rule": spec["rule"],
                "samples": samples or ["(none: see violation)"], "observed": cov}
    if spec.get("exhaustive"):
        coverage["exhaustive"] = True
    evidence = {"property": prop, "tier": vfrun.TIER if vfrun.TIER in ("quick", "thorough") else "quick", "seed": vfrun.SEED,
                "level": spec.get("level", "exploration"), "coverage": coverage,
                "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(vfrun.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vfrun.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if viol:
        v = viol[0]
        path = vfrun.write_replay(prop, v)
        print("%d shard(s) report; first: key=%s case=%s\n%s\ntrace: %s" % (len(viol), v["key"], v.get("case"), v["msg"], v.get("trace", "")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # "require" says what the monitors usually see at least; how often some of it comes up depends on how the library is
    # written (driver calls made, clock readings), so only a quarter of it is demanded
    missing = [(k, n, cov.get(k, 0)) for k, n in spec.get("require", {}).items() if cov.get(k, 0) < (n + 3) // 4]
    if missing:
        print("INCONCLUSIVE property=%s: monitors observed too little: %s" % (prop, missing))
        return 2
    print("held property=%s tier=%s seed=%d: %d executions, %d distinct non-trivial, %.1f s; observed %s" %
          (prop, vfrun.TIER, vfrun.SEED, ev, distinct, time.time() - t0, json.dumps(cov)))
    return 0


def replay(path):
    r = json.load(open(path))
    vfrun.SEED, vfrun.TIER = r["seed"], r["tier"]
    spec = PROPS[r["property"]]
    if "py" in spec:
        bd = vfrun.BuildDir("replay")
        try:
            res = spec["py"](r["property"], bd, {}, only=r)
        finally:
            bd.close()
    else:
        bd = vfrun.BuildDir("replay")
        try:
            job = [j for j in spec["jobs"] if j["bin"] == r["job"]][0]
            exe = bd.link(job, bd.start(job))
            res = vfrun.run_shard(exe, job, r["property"], r["case"], 1, bd.dir, [], verbose=True)
        finally:
            bd.close()
    _, _, _, _, _, viol = vfrun.merge(res)
    for v in viol:
        print(v["key"], v["msg"], "\ntrace:", v.get("trace"))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if viol else 0


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--list":
        print("\n".join(PROPS))
    elif len(sys.argv) == 2 and sys.argv[1] == "--selfcheck":
        import shutil
        missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
        print("missing tools: %s" % missing if missing else "%d checks ready" % len(PROPS))
        sys.exit(1 if missing else 0)
    elif len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    elif len(sys.argv) == 2 and sys.argv[1] in PROPS:
        sys.exit(check(sys.argv[1]))
    else:
        print(__doc__, "ids:", *PROPS)
        sys.exit(2)
