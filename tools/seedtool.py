#!/usr/bin/env python3
"""Planted bugs: make them from specifications, confirm them in scratch copies, run the checks against them.

  seedtool.py make SPECS.py [ID..]   write seeded/<id>/ from a specification list and confirm each
  seedtool.py confirm ID..           confirm existing ones (applies, original lines, builds, tests pass, demo 0/nonzero)
  seedtool.py check ID.. [--props P,Q] run the property's check (VF_REPO=scratch copy with the patch)
Scratch copies live under /tmp/seedwork and are removed afterwards.
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf, time
V = "/verif"
REPO = "/repo"
BASE = "97ac987"
W = "/tmp/seedwork"


def sh(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, env=env)


def copy(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (REPO, d), shell=True, check=True)
    return d


def build(d):
    r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON "
           "-DCMAKE_REQUIRE_FIND_PACKAGE_Freetype=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Iconv=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
           "&& ninja -C _build", cwd=d)
    return r.returncode, r.stdout


def tests(d):
    out = []
    for b, wd in (("tests", "_build/tests"), ("graphics-tests", "tests/data")):
        r = sh([os.path.join(d, "_build/tests", b)], cwd=os.path.join(d, wd), timeout=60)
        m = re.search(r"\[  PASSED  \] (\d+) test", r.stdout)
        out.append((r.returncode, int(m.group(1)) if m else 0))
    return all(rc == 0 for rc, _ in out) and sum(n for _, n in out) == 60, out


def demo(sid, d):
    t = os.path.join(W, "demo-" + sid)
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", sid), t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = sh(["bash", os.path.join(t, "demo.sh")], cwd=d, timeout=300)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(t, ignore_errors=True)


def removed_lines_original(sid):
    """every line the patch removes existed in the original repository"""
    cur, bad = None, []
    for l in open(os.path.join(V, "seeded", sid, "patch.diff")):
        if l.startswith("--- "):
            cur = l[6:].strip()
            base = set(x.strip() for x in sh(["git", "-C", REPO, "show", BASE + ":" + cur]).stdout.splitlines())
        elif l.startswith("-") and l[1:].strip() and l[1:].strip() not in base:
            bad.append(l.rstrip())
    return bad


def confirm(sid):
    d = copy(sid)
    try:
        p = os.path.join(V, "seeded", sid, "patch.diff")
        bad = removed_lines_original(sid)
        rc, o = build(d)
        if rc: return sid, False, "clean build fails " + o[-500:]
        rc0, o0 = demo(sid, d)
        r = sh(["git", "apply", "--check", p], cwd=REPO)
        if r.returncode: return sid, False, "does not apply: " + r.stdout
        r = sh(["patch", "-p1", "-i", p], cwd=d)
        if r.returncode: return sid, False, "patch: " + r.stdout
        rc, o = build(d)
        if rc: return sid, False, "patched build fails " + o[-1500:]
        ok, t = tests(d)
        rc1, o1 = demo(sid, d)
        good = ok and rc0 == 0 and rc1 != 0
        return sid, good, "tests=%s %s demo clean=%d patched=%d%s%s" % (
            ok, t, rc0, rc1, "  NOT ORIGINAL: %s" % bad if bad else "",
            "" if good else "\n--clean--\n%s\n--patched--\n%s" % (o0[-1500:], o1[-1500:]))
    except Exception as e:
        return sid, False, repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, props=None):
    d = copy("c-" + sid)
    try:
        r = sh(["patch", "-p1", "-i", os.path.join(V, "seeded", sid, "patch.diff")], cwd=d)
        meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
        res = []
        for p in props or [meta["property"]]:
            t0 = time.time()
            r = sh(["python3", V + "/run.py", p], cwd=V, timeout=1500, env=dict(os.environ, VF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
            last = [l for l in r.stdout.splitlines() if l.strip()][-4:]
            caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            res.append((p, "CAUGHT" if caught else "rc=%d" % r.returncode, round(time.time() - t0, 1), " | ".join(last)[:400]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(spec):
    sid = spec["id"]
    s = os.path.join(V, "seeded", sid)
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    d = copy("m-" + sid)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(d, f)
            txt = open(p, newline="").read()
            if "\r\n" in txt:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if txt.count(old) != spec.get("count", 1):
                return "edit text found %d times in %s: %r" % (txt.count(old), f, old)
            open(p, "w", newline="").write(txt.replace(old, new))
        files = sorted(set(e[0] for e in spec["edits"]))
        diff = b""
        for f in files:
            r = subprocess.run(["git", "diff", "--no-index", "--no-color", os.path.join(REPO, f), os.path.join(d, f)], stdout=subprocess.PIPE)
            t = r.stdout
            t = t.replace(("a" + os.path.join(REPO, f)).encode(), ("a/" + f).encode()).replace(("b" + os.path.join(d, f)).encode(), ("b/" + f).encode())
            diff += t
        open(os.path.join(s, "patch.diff"), "wb").write(diff)
        open(os.path.join(s, "demo.sh"), "w").write(spec["demo"])
        os.chmod(os.path.join(s, "demo.sh"), 0o755)
        for n, c in spec.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(s, n)), exist_ok=True)
            if isinstance(c, tuple): (shutil.copytree if os.path.isdir(c[0]) else shutil.copy)(c[0], os.path.join(s, n))
            else: open(os.path.join(s, n), "w").write(c)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(s, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


if __name__ == "__main__":
    os.makedirs(W, exist_ok=True)
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        specs = [s for s in ns["SPECS"] if not args[1:] or s["id"] in args[1:]]
        todo = []
        for s in specs:
            e = make(s)
            print(s["id"], e or "written")
            if not e: todo.append(s["id"])
        args, cmd = todo, "confirm"
    if cmd == "confirm":
        with cf.ThreadPoolExecutor(4) as ex:
            for sid, ok, msg in ex.map(confirm, args or sorted(os.listdir(V + "/seeded"))):
                print("OK  " if ok else "BAD ", sid, msg, flush=True)
    if cmd == "check":
        props = None
        if "--props" in args:
            i = args.index("--props"); props = args[i + 1].split(","); del args[i:i + 2]
        for sid in args or sorted(os.listdir(V + "/seeded")):
            for r in check(sid, props):
                print(sid, *r, flush=True)
