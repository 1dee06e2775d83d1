#!/usr/bin/env python3
"""Mutation study: small changes of the library that compile and pass its tests, against the checks of the properties
anchored in the changed file.  Used while building the checks (no registered command needs it).

  mutate.py list                       number of mutants per file
  mutate.py run OUT.jsonl [-j N] [-n MAX per file] [-s SEED] [FILE-REGEX]
"""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf, threading
REPO, V, W = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/tmp/mutwork"
MAP = [(r"^BufferedOut", "T01 T02 T03 T04 O01"), (r"^MemoryView", "M01 T01 S01"), (r"^PersistentStorage", "S01 S02 S03 S04 S05"),
       (r"^EndianConversion", "E01"), (r"BaseGeometry", "G01 V02 V01"), (r"Canvas", "V01 V02 V03 V04 V05 V06 V07 F02 F01"),
       (r"EmbeddedFont\b|GFXFontsAdapter", "R01 V06 V07 N04 N03"), (r"EmbeddedFonts", "R01 V07"), (r"FrameBuffer", "F01 F02 V01"),
       (r"SerialDebug|Debug", "O02"), (r"SerialOut", "O01 O02"), (r"PacketUart", "U01 U02 U03 U04 U05"), (r"SimpleUartDevice", "H01 U05 U01 U03"),
       (r"SpiBus|SpiDevice", "P01 P02 P03"), (r"I2CDevice", "I01 P03"), (r"I2CBus", "H01 I01"), (r"Gpio", "D01 H01"), (r"AnalogPin", "A01"),
       (r"Delays|SleepFunctions", "L01"), (r"BitStream", "K03 K01 K06"), (r"EncodingConverter", "K04 K01"), (r"gfx-font-converter", "K01 K02 K05 K06 K07")]


def sources():
    r = subprocess.run(["git", "-C", REPO, "ls-files", "*.h", "*.cpp"], capture_output=True, text=True).stdout.split()
    return [f for f in r if not f.startswith("tests/") and "GFXFonts/" not in f]


RULES = [
    (r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s)", ["<="]), (r"(?<=\s)>(?![>=])(?=\s)", [">="]), (r"<=", ["<"]), (r"(?<!->)>=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=[\w)\]] )\+(?= )", ["-"]), (r"(?<=[\w)\]] )-(?= )", ["+"]), (r"(?<=[\w)\]] )\*(?= )", ["/"]), (r"(?<=[\w)\]] )/(?= )", ["*"]), (r"(?<=[\w)\]] )%(?= )", ["/"]),
    (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<(?= ?\()", [">>"]), (r"(?<=\d) << ", [" >> "]), (r"\+\+", ["--"]), (r"--", ["++"]),
    (r"!(?=[\w(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.x])\d+(?![\w.])", ["+1", "-1"]), (r"0x[0-9A-Fa-f]+", ["+1", ">>1"]),
    (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
    (r"\buint16_t\b", ["uint8_t", "int16_t"]), (r"\buint32_t\b", ["uint16_t", "int32_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bint64_t\b", ["int32_t"]),
    (r"\b(?:std::)?size_t\b", ["uint16_t", "uint8_t"]), (r"\bint\b(?! main)", ["int16_t", "int8_t"]), (r"\bint16_t\b", ["int8_t"]), (r"\bint8_t\b", ["uint8_t"]), (r"\buint8_t\b", ["int8_t"]),
    (r"\bbreak;", ["continue;", ";"]), (r"\bcontinue;", ["break;"]), (r"\bif \((?!constexpr)", ["if (true || ", "if (false && "]),
    (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bwhile \(", ["if ("]),
    (r"\b(\w+ull|\w+u)\b", ["0u"]), (r" \? ", [" ?: "]), (r"~", [""]),
]


def mutants(f):
    lines = open(os.path.join(REPO, f)).read().split("\n")
    out, comment = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#") or s.startswith("//") or not s or s.startswith("namespace") or s.startswith("using"):
            continue
        code = l.split("//")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                before = code[:m.start()]
                if before.count('"') % 2 or before.count("'") % 2:
                    continue
                for rep in reps:
                    t = m.group(0)
                    if rep in ("+1", "-1", ">>1"):
                        v = int(t, 0)
                        v = v + 1 if rep == "+1" else v - 1 if rep == "-1" else v >> 1
                        new = str(v) if not t.startswith("0x") else hex(v)
                    elif rep == " ?: ":
                        continue
                    else:
                        new = rep
                    n = l[:m.start()] + new + l[m.end():]
                    if n != l:
                        out.append((f, i, l, n))
        if s.endswith(";") and not re.match(r"(return\b|break|continue|const |auto |static |using |explicit |virtual |int |uint|bool |char |float |std::|unsigned|class |struct |template|typedef|friend|enum|[\w:<>]+[&*]? [\w]+(\(|;| =|\{))", s) and "(" in s or re.match(r"(\+\+|--)?[\w.\->\[\]*()]+ ?(=|\+=|-=|\|=|&=|\+\+|--).*;$", s):
            out.append((f, i, l, "    ;"))
    seen, uniq = set(), []
    for m in out:
        if (m[1], m[3]) not in seen:
            seen.add((m[1], m[3])); uniq.append(m)
    return uniq


def props_of(f):
    for pat, p in MAP:
        if re.search(pat, f):
            return p.split()
    return []


class Worker:
    def __init__(self, n):
        self.d = os.path.join(W, "w%d" % n)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (REPO, self.d), shell=True, check=True)
        subprocess.run("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON "
                       "-DCMAKE_REQUIRE_FIND_PACKAGE_Freetype=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Iconv=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null 2>&1; ninja -C _build >/dev/null 2>&1", cwd=self.d, shell=True)

    def tests(self):
        for b, wd in (("tests", "_build/tests"), ("graphics-tests", "tests/data")):
            try:
                r = subprocess.run([os.path.join(self.d, "_build/tests", b)], cwd=os.path.join(self.d, wd), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
                if r.returncode:
                    return False
            except subprocess.TimeoutExpired:
                return False
        return True

    def one(self, m, ncpu):
        f, i, old, new = m
        p = os.path.join(self.d, f)
        orig = open(p).read()
        lines = orig.split("\n")
        lines[i] = new
        res = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
        try:
            open(p, "w").write("\n".join(lines))
            r = subprocess.run(["ninja", "-C", "_build"], cwd=self.d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            if r.returncode:
                return dict(res, verdict="no-compile")
            if not self.tests():
                return dict(res, verdict="tests")
            verdicts = {}
            for prop in props_of(f):
                env = dict(os.environ, VF_REPO=self.d, VF_NCPU=str(ncpu), VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    r = subprocess.run([sys.executable, os.path.join(V, "run.py"), prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=900)
                    verdicts[prop] = r.returncode
                    if r.returncode == 2:
                        res.setdefault("why", []).append(r.stdout[-300:])
                except subprocess.TimeoutExpired:
                    verdicts[prop] = "timeout"
                if verdicts[prop] == 1:
                    return dict(res, verdict="caught", by=prop)
            return dict(res, verdict="inconclusive" if any(v not in (0, 1) for v in verdicts.values()) else "SURVIVED", verdicts=verdicts)
        except Exception as e:
            return dict(res, verdict="error", why=str(e))
        finally:
            open(p, "w").write(orig)


def main():
    a = sys.argv[1:]
    if a[0] == "list":
        for f in sources():
            print("%5d %s %s" % (len(mutants(f)), f, " ".join(props_of(f))))
        return
    out = a[1]
    opt = dict(zip(a[2::2], a[3::2])) if len(a) % 2 == 0 else dict(zip(a[2:-1:2], a[3:-1:2]))
    rx = a[-1] if len(a) % 2 else "."
    j, n, seed = int(opt.get("-j", 4)), int(opt.get("-n", 10)), int(opt.get("-s", 1))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    todo = []
    for f in sources():
        if not re.search(rx, f) or not props_of(f):
            continue
        ms = mutants(f)
        random.Random(seed).shuffle(ms)
        todo += [m for m in ms[:n] if (m[0], m[1] + 1, m[3].strip()) not in done]
    random.Random(seed).shuffle(todo)
    lock = threading.Lock()
    q = list(todo)

    def work(k):
        w = Worker(k)
        while True:
            with lock:
                if not q:
                    break
                m = q.pop()
            r = w.one(m, max(1, 8 // j))
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(r) + "\n")
        shutil.rmtree(w.d, ignore_errors=True)
    with cf.ThreadPoolExecutor(j) as pool:
        list(pool.map(work, range(j)))
    subprocess.run(["rm", "-rf", W])


main()
