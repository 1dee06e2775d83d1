#!/usr/bin/env python3
"""Reach of the generators: changes that only matter for one value of one argument (development aid, no registered command).

  boundary.py list [FILE-REGEX]
  boundary.py run OUT.jsonl [-j N] [-n MAX per argument] [-s SEED] [FILE-REGEX]
"""
import importlib.util, json, os, random, re, subprocess, sys, threading, concurrent.futures as cf
sys.argv, ARGS = [sys.argv[0], "none"], sys.argv[1:]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py")).read().rsplit("\nmain()", 1)[0]
exec(src)
VALUES = {"8": [0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 160, 200, 254, 255],
          "16": [0, 1, 2, 3, 4, 5, 7, 8, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 4091, 4092, 4093, 8184, 32767, 32768, 65534, 65535],
          "int": [0, 1, -1, 2, -2, 3, 7, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, -128, -129, 200, 255, 256, 257, -256, 319, 320, 500, 511, 512, 1000, 1023, 1024, 4096, 32767, 32768, -32768, 65535, 65536, 100000, -100000, 2147483647, -2147483648],
          "char": [0, 1, 10, 31, 32, 33, 39, 65, 92, 122, 126, 127, 128, 129, 159, 160, 161, 200, 223, 254, 255]}


def kind(t):
    t = t.replace("const", "").replace("std::", "").strip()
    if t in ("char", "unsigned char", "uint8_t", "byte"):
        return "char" if t == "char" else "8"
    if t in ("uint16_t", "short", "int16_t"):
        return "16"
    if t in ("int", "long", "long long", "unsigned", "unsigned int", "unsigned long", "unsigned long long", "uint32_t", "int32_t", "size_t", "uint64_t", "int64_t"):
        return "int"
    if re.match(r"(embedded::)?Point(<int>)?$", t):
        return "point"
    if re.match(r"(embedded::)?Size(<int>)?$", t):
        return "size"
    if t in ("float", "double"):
        return "float"
    if t in ("string_view",):
        return "view"


def bounds(f):
    lines = open(os.path.join(REPO, f)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if l.strip() != "{":
            continue
        h, j = "", i - 1
        while j >= 0 and lines[j].strip() and not lines[j].strip().endswith((";", "}", "{", ":")) and i - j < 6:
            h = lines[j].strip() + " " + h
            j -= 1
        m = re.match(r"^(?!if|for|while|switch|else)[\w:<>&*~, ]*?[\w~\]=<+\-*/]+ ?\((.*?)\)\s*(const|override|noexcept|\s)*(:.*)?$", h.strip())
        if not m or re.match(r"(if|for|while|switch)\b", h):
            continue
        for p in re.split(r",(?![^<]*>)", m.group(1)):
            p = p.split("=")[0].strip()
            pm = re.match(r"^(.*?[ &*])(\w+)$", p)
            if not pm or "*" in pm.group(1):
                continue
            t, v = pm.group(1).replace("&", "").strip() if "Point" in pm.group(1) or "Size" in pm.group(1) else pm.group(1).strip(), pm.group(2)
            k = kind(t)
            if not k:
                continue
            def emit(expr, val, change):
                out.append((f, i, l, l + " if (%s == %s) { %s }" % (expr, val, change), h.strip()[:60] + " " + expr))
            if k in ("point", "size"):
                for c in ("x", "y") if k == "point" else ("width", "height"):
                    for val in VALUES["int"]:
                        emit("%s.%s" % (v, c), val if val != -2147483648 else "(-2147483647-1)", "%s.%s ^= 1;" % (v, c))
            elif k == "view":
                for val in [0, 1, 2, 3, 4, 5, 8, 10, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024]:
                    emit(v + ".size()", val, "%s.remove_suffix(%s.size() ? 1 : 0);" % (v, v))
            elif k == "float":
                for val in ["0.0f", "1.0f", "-1.0f", "0.5f", "10.0f", "100.0f", "1000.0f", "32767.0f", "32768.0f", "-32768.0f", "65535.0f", "65536.0f", "1e6f", "0.1f", "0.25f", "9.5f", "9.999f", "2147483648.0f", "1e9f"]:
                    emit(v, val, "%s = %s * 1.5f + 1;" % (v, v))
            elif k == "char":
                for val in VALUES["char"]:
                    emit("(unsigned char)" + v, val, "%s ^= 1;" % v)
            else:
                for val in VALUES[k]:
                    if val < 0 and re.match(r"(std::)?(u|size_t)", t):
                        continue
                    emit(v, val if val != -2147483648 else "(-2147483647-1)", "%s ^= 1;" % v)
    return out


def bmain():
    a = ARGS
    rx = a[-1] if (a[0] == "list" and len(a) == 2) or (a[0] == "run" and len(a) % 2) else "."
    files = [f for f in sources() if re.search(rx, f) and props_of(f)]
    if a[0] == "list":
        seen = {}
        for f in files:
            for m in bounds(f):
                seen[(f, m[1] + 1, m[4])] = seen.get((f, m[1] + 1, m[4]), 0) + 1
        for k, n in seen.items():
            print(n, *k)
        return
    out = a[1]
    opt = dict(zip(a[2::2], a[3::2]))
    j, n, seed = int(opt.get("-j", 4)), int(opt.get("-n", 3)), int(opt.get("-s", 1))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    rnd = random.Random(seed)
    todo = []
    for f in files:
        per = {}
        for m in bounds(f):
            per.setdefault((m[1], m[4]), []).append(m[:4])
        for k, ms in per.items():
            rnd.shuffle(ms)
            todo += [m for m in ms[:n] if (m[0], m[1] + 1, m[3].strip()) not in done]
    rnd.shuffle(todo)
    print(len(todo), "changes", flush=True)
    lock = threading.Lock()

    def work(k):
        w = Worker(100 + k)
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop()
            r = w.one(m, max(1, 8 // j))
            with lock:
                with open(out, "a") as fo:
                    fo.write(json.dumps(r) + "\n")
        shutil.rmtree(w.d, ignore_errors=True)
    with cf.ThreadPoolExecutor(j) as pool:
        list(pool.map(work, range(j)))


bmain()
