"""Build / run / merge engine shared by all checks."""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, time, glob, threading, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = int(os.environ.get("VF_NCPU", "0")) or os.cpu_count() or 8
OUT = os.path.join(VERIF, "out")

GROUPS = {  # library sources, globbed so that newly extracted helper files are included
    "core": ["*.cpp"],
    "graphics": ["graphics/**/*.cpp"],
    "arduino": ["arduino/**/*.cpp"],
    "esp": ["esp32-esp-idf/**/*.cpp"],
    "converter": ["gfx-font-converter/**/*.cpp"],
}
SAN = {
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    "plain": ["-O1", "-g"],
    "O0": ["-O0", "-g"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
           TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1",
           LC_ALL="C.UTF-8")
for k in ("VERIF_SEED", "VERIF_TIER"):
    ENV.pop(k, None)


class HarnessError(Exception):
    pass


class BuildDir:
    """Private build directory of one run (removed at the end)."""
    def __init__(self, tag):
        self.dir = os.path.join(VERIF, "build", "%s-%d" % (tag, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.objs = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def close(self):
        self.pool.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

    def _compile(self, cxx, src, flags):
        key = hashlib.sha1(repr((cxx, src, flags)).encode()).hexdigest()[:16]
        obj = os.path.join(self.dir, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        r = subprocess.run([cxx, "-std=gnu++17", "-w", *flags, "-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode:
            raise HarnessError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        return obj

    def obj(self, cxx, src, flags):
        k = (cxx, src, tuple(flags))
        if k not in self.objs:
            self.objs[k] = self.pool.submit(self._compile, cxx, src, list(flags))
        return self.objs[k]

    def start(self, job):
        """Begin compiling a job's objects; link() waits for them."""
        cxx = job.get("cxx", "g++")
        san = SAN[job["san"]] if isinstance(job["san"], str) else job["san"]
        flags = san + job.get("flags", [])
        inc = []
        for i in job.get("inc", []):
            inc += ["-I", i]
        inc += ["-I", REPO, "-I", os.path.join(REPO, "graphics"), "-I", os.path.join(VERIF, "harness")]
        futs = []
        for s in job["src"]:
            futs.append(self.obj(cxx, os.path.join(VERIF, "harness", s), flags + job.get("srcflags", []) + inc))
        for g in job["lib"]:
            for pat in GROUPS[g]:
                for s in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
                    extra = job.get("renames", {}).get(os.path.basename(s), [])
                    futs.append(self.obj(cxx, s, flags + job.get("libflags", []) + extra + inc))
        return futs, cxx, san

    def link(self, job, started):
        futs, cxx, san = started
        objs = [f.result() for f in futs]
        exe = os.path.join(self.dir, job["bin"])
        sanflags = [f for f in san if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        r = subprocess.run([cxx, *sanflags, *objs, "-o", exe, "-lpthread", *job.get("ldflags", [])],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError("linking %s failed:\n%s" % (job["bin"], r.stdout[-4000:]))
        return exe


def classify_crash(rc, err):
    """(key, message) of a sanitizer report or fatal signal."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:80].strip().replace(" ", "-")
    if not kind:
        m = re.search(r"Assertion '(.*)' failed", err)
        if m:
            kind = "assert:" + m.group(1)[:60].replace(" ", "")
    if not kind:
        kind = "signal:%d" % (-rc if rc < 0 else rc)
    fn = "?"
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (.+?) " + re.escape(REPO) + r"/(\S+?):\d+", err)
    if m:
        fn = m.group(2) + ":" + re.sub(r"\(.*", "", m.group(1))
    else:
        m = re.search(re.escape(REPO) + r"/(\S+?):\d+", err)
        if m:
            fn = m.group(1)
    return kind + "@" + fn, err.strip()[:3000]


def read_status(path):
    try:
        b = open(path, "rb").read()
        c, running = struct.unpack("QQ", b[:16])
        note = b[16:].split(b"\0", 1)[0].decode("utf8", "replace")
        return c, running, note
    except Exception:
        return 0, 0, ""


def wait_for(p, wall, stop):
    """stderr of the finished process, or None when it was ended because another shard has reported a violation."""
    limit = time.monotonic() + wall
    while True:
        try:
            return p.communicate(timeout=0.5 if stop else wall)[1]
        except subprocess.TimeoutExpired:
            if (stop and stop.is_set()) or time.monotonic() >= limit:
                p.kill()
                p.communicate()
                if stop and stop.is_set():
                    return None
                raise


def run_shard(exe, job, prop, start, count, bdir, known, retried=False, timeout=None, verbose=False, stop=None):
    """Runs cases [start, start+count); returns a list of result dicts (several after known crashes). 'stop' is the event
    by which the shards of one check tell each other that a violation has been found."""
    results = shard_results(exe, job, prop, start, count, bdir, known, retried, timeout, verbose, stop)
    if stop and any(r.get("violation") for r in results):
        stop.set()
    return results


def shard_results(exe, job, prop, start, count, bdir, known, retried, timeout, verbose, stop):
    results = []
    while count > 0 and not (stop and stop.is_set()):
        tag = "%s-%d" % (os.path.basename(exe), start)
        out, status = os.path.join(bdir, tag + ".json"), os.path.join(bdir, tag + ".st")
        for f in (out, status):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "--prop", prop, "--seed", str(SEED), "--tier", TIER, "--start", str(start), "--count", str(count),
               "--out", out, "--status", status]
        if job.get("data"):
            cmd += ["--data", job["data"]]
        for k in known:
            cmd += ["--known", k]
        if verbose:
            cmd += ["--verbose"]
        wall = timeout or job.get("wall", 800 if TIER == "quick" else 3600)
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, cwd=bdir)
            err = wait_for(p, wall, stop)
            if err is None:
                return results
            rc, err = p.returncode, err.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            raise HarnessError("%s: wall clock limit of %d s reached (inconclusive)" % (tag, wall))
        if rc in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            r["job"], r["start"], r["count"] = job["bin"], start, count
            sg = out + ".sigs"
            r["sigs"] = open(sg, "rb").read() if os.path.exists(sg) else b""
            results.append(r)
            return results
        if rc == 98:
            raise HarnessError("%s: harness error: %s" % (tag, err[-2000:]))
        c, running, note = read_status(status)
        if rc == 97:
            if not retried:
                # once more, that case alone, before calling it non-termination
                results += run_shard(exe, job, prop, c, 1, bdir, known, retried=True, verbose=verbose, stop=stop)
                if any(r.get("violation") for r in results):
                    return results
                count -= c + 1 - start
                start = c + 1
                continue
            key, msg = "hang", "case did not terminate within 20 s of CPU time (twice); " + note
        else:
            key, msg = classify_crash(rc, err)
            if note:
                msg = note + "\n" + msg
        if verbose:
            sys.stderr.write(err)
        v = {"key": key, "msg": msg, "case": c, "trace": note}
        base = {"evaluations": c - start + 1, "cov": {}, "samples": [], "known": [], "sigs": b"", "job": job["bin"], "start": start}
        if key in known:
            base.update(violation=None, known=[{"key": key, "count": 1, "msg": msg[:500]}])
            results.append(base)
            count -= c + 1 - start
            start = c + 1
            continue
        base["violation"] = v
        results.append(base)
        return results
    return results


def load_known():
    """KNOWN_FINDINGS.txt: 'known: property=ID key=KEY what...' and 'fixed: property=ID commit what...'"""
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", l)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def run_jobs(prop, jobs, bd, known_keys):
    started = [(j, bd.start(j)) for j in jobs]
    exes = [(j, bd.link(j, s)) for j, s in started]
    futs, stop = [], threading.Event()
    with cf.ThreadPoolExecutor(NCPU) as pool:
        for j, exe in exes:
            total = j["thorough"] if TIER == "thorough" else j["quick"]
            scale = float(os.environ.get("VF_SCALE", "1"))
            total = max(1, int(total * scale)) if not j.get("fixed") else total
            n = min(j.get("shards", NCPU), total)
            per = (total + n - 1) // n
            for i in range(n):
                a, b = i * per, min(total, (i + 1) * per)
                if a < b:
                    futs.append((j, pool.submit(run_shard, exe, j, prop, a, b - a, bd.dir, known_keys, stop=stop)))
        res, failed = [], None
        for j, f in futs:
            try:
                res += f.result()
            except HarnessError as e:
                failed = failed or e
    if failed and not any(r.get("violation") for r in res):
        raise failed
    return res


def merge(results):
    ev, cov, samples, sigs, known, viol = 0, {}, [], set(), {}, []
    for r in results:
        ev += r["evaluations"]
        for k, v in r["cov"].items():
            cov[k] = cov.get(k, 0) + v
        if len(samples) < 6:
            samples += r["samples"][:1]
        b = r["sigs"]
        sigs.update(struct.unpack("%dQ" % (len(b) // 8), b))
        for k in r["known"]:
            e = known.setdefault(k["key"], [0, k["msg"]])
            e[0] += k["count"]
        if r.get("violation"):
            v = dict(r["violation"], job=r["job"])
            viol.append(v)
    return ev, cov, samples, len(sigs), known, viol


def write_replay(prop, v, extra=None):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "replay-%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", v["key"])[:40], v.get("case", 0)))
    json.dump(dict(property=prop, seed=SEED, tier=TIER, **v, **(extra or {})), open(path, "w"), indent=1)
    return path
