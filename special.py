"""Checks that need more than one program per case."""
import concurrent.futures as cf, struct
import vfrun

N03_BUILDS = [  # name, compiler, flags
    ("gcc-O2", "g++", ["-O2", "-g"]),
    ("gcc-O0-unsigned", "g++", ["-O0", "-g", "-funsigned-char"]),
    ("gcc-O3-signed", "g++", ["-O3", "-g", "-fsigned-char"]),
    ("clang-O0", "clang++", ["-O0", "-g"]),
    ("clang-O2-unsigned", "clang++", ["-O2", "-g", "-funsigned-char"]),
    ("gcc-Os-noalias", "g++", ["-Os", "-g", "-fno-strict-aliasing", "-fwrapv", "-funsigned-char"]),
]


def n03(prop, bd, known, only=None):
    jobs = [dict(bin="n03-" + n, cxx=c, san=f, src=["digest.cpp"], lib=["core", "graphics"]) for n, c, f in N03_BUILDS]
    started = [(j, bd.start(j)) for j in jobs]
    exes = [(j, bd.link(j, s)) for j, s in started]
    if only:
        total, first = 1, only["case"]
        parts = [(first, 1)]
    else:
        total = 400000 if vfrun.TIER == "thorough" else 16000
        n = 16 if vfrun.TIER == "thorough" else 4
        per = (total + n - 1) // n
        parts = [(i * per, min(per, total - i * per)) for i in range(n)]
    results = []
    with cf.ThreadPoolExecutor(vfrun.NCPU) as pool:
        runs = {(j["bin"], p): pool.submit(vfrun.run_shard, exe, j, prop, p[0], p[1], bd.dir, [], verbose=bool(only))
                for p in parts for j, exe in exes}
        runs = {k: f.result() for k, f in runs.items()}
    base = jobs[0]["bin"]
    for p in parts:
        ref = runs[base, p]
        refsigs = struct.unpack("%dQ" % (len(ref[0]["sigs"]) // 8), ref[0]["sigs"])
        for j in jobs:
            rs = runs[j["bin"], p]
            r = rs[0]
            r["cov"] = {k: v for k, v in r["cov"].items()} if j["bin"] == base else {"digests compared with " + base[4:]: r["evaluations"]}
            v = next((x["violation"] for x in rs if x.get("violation")), None)
            if not v and j["bin"] != base and not ref[0].get("violation"):
                s = struct.unpack("%dQ" % (len(r["sigs"]) // 8), r["sigs"])
                bad = next((i for i in range(max(len(s), len(refsigs))) if i >= len(s) or i >= len(refsigs) or s[i] != refsigs[i]), None)
                if bad is not None:
                    case = p[0] + bad
                    v = {"key": "builds-differ", "case": case, "trace": "",
                         "msg": "case %d: the library built as %s gives other results (digest %016x) than built as %s (digest %016x); per-step digests: run.py --replay" %
                                (case, j["bin"][4:], s[bad] if bad < len(s) else 0, base[4:], refsigs[bad] if bad < len(refsigs) else 0)}
            r["violation"] = v if v and v["key"] not in known else None
            if j["bin"] != base:
                r["samples"] = []
            results.append(r)
    return results
