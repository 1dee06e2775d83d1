#!/usr/bin/env python3
"""Reach of the generators, measured: a copy of the library reports which notable values each argument took
while the checks ran (development aid, no registered command).

  reach.py run OUTDIR [PROP...]     run the checks over the instrumented copy
  reach.py report OUTDIR [FILE-REGEX]    notable values never seen, per argument
"""
import json, os, re, shutil, subprocess, sys
_argv = sys.argv
sys.argv = [sys.argv[0], "list", "^$"]
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "boundary.py")).read().rsplit("\nbmain()", 1)[0]
exec(_src)
HEAD = r'''#pragma once
#include <atomic>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <initializer_list>
#include <fcntl.h>
#include <unistd.h>
namespace vfprof {
inline void put(int id, double v) {
  struct Seen { std::atomic<unsigned char> bits[1 << 18]; };
  static Seen* seen = new Seen();
  unsigned long long h; memcpy(&h, &v, 8); h = (h ^ (unsigned long long)id * 0x9E3779B97F4A7C15ull) * 0xD6E8FEB86659FD93ull;
  auto& b = seen->bits[h >> 46]; unsigned char m = (unsigned char)(1u << ((h >> 40) & 7));
  if (b.load(std::memory_order_relaxed) & m) return;
  b.fetch_or(m);
  char t[64]; int n = snprintf(t, sizeof t, "%d %.17g\n", id, v);
  static int fd = open("@LOG@", O_WRONLY | O_CREAT | O_APPEND, 0666);
  if (fd >= 0 && write(fd, t, (size_t)n) < 0) {}
}
template<class T> constexpr void see(int id, const T& v) {
  if (__builtin_is_constant_evaluated()) return;
  double d = (double)v;
  bool notable = (d >= -1100 && d <= 1100 && d == (double)(long long)d);
  if (!notable && d == d && std::fabs(d) < 1e19) for (int k = 7; k <= 63 && !notable; ++k) { double p = std::ldexp(1.0, k), a = std::fabs(d); notable = a == p || a == p - 1 || a == p + 1; }
  if (!notable) for (double x : { 0.1, 0.25, 0.5, 0.75, 9.5, 10000.0, 100000.0, -100000.0, 1e6, 1e9, 4091.0, 4092.0, 4093.0, 8184.0 }) if (d == x || d == (double)(float)x) notable = true;
  if (notable) put(id, d);
  else put(id, d > 0 ? 1e30 : -1e30);
}
}
'''


def sites(f):
    """(line index, header, expr, kind) per parameter"""
    seen = {}
    for m in bounds(f):
        i, what = m[1], m[4]
        if (i, what) not in seen:
            expr = what[61:] if False else re.search(r"if \((.*?) == ", m[3][len(m[2]):]).group(1)
            seen[(i, what)] = (i, what, expr)
    return list(seen.values())


def instrument(dst, log):
    table, n = {}, 0
    for f in sources():
        if not props_of(f):
            continue
        p = os.path.join(dst, f)
        lines = open(p).read().split("\n")
        add = {}
        for i, what, expr in sites(f):
            n += 1
            table[n] = [f, i + 1, what, expr]
            add.setdefault(i, []).append("vfprof::see(%d, %s);" % (n, expr))
        if not add:
            continue
        for i, l in add.items():
            lines[i] += " " + " ".join(l)
        k = next((i for i, l in enumerate(lines) if l.startswith("#pragma once")), -1) + 1
        lines.insert(k, '#include "%s/vfprof.h"' % dst)
        open(p, "w").write("\n".join(lines))
    open(os.path.join(dst, "vfprof.h"), "w").write(HEAD.replace("@LOG@", log))
    return table


def main2():
    a = _argv[1:]
    d = os.path.abspath(a[1])
    if a[0] == "run":
        props = a[2:] or sorted({p for f in sources() for p in (props_of(f) or [])})
        repo = os.path.join(d, "repo")
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(["cp", "-a", REPO, repo])
        table = instrument(repo, os.path.join(d, "log"))
        json.dump(table, open(os.path.join(d, "table.json"), "w"))
        for p in props:
            log = os.path.join(d, "log")
            if os.path.exists(log):
                os.remove(log)
            r = subprocess.run([sys.executable, "run.py", p], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VF_REPO=repo), capture_output=True, text=True)
            print(p, r.returncode, r.stdout[-300:].strip() if r.returncode else "", flush=True)
            if os.path.exists(log):
                os.rename(log, os.path.join(d, "log." + p))
    else:
        rx = a[2] if len(a) > 2 else "."
        table = json.load(open(os.path.join(d, "table.json")))
        vals = {}
        for g in os.listdir(d):
            if g.startswith("log."):
                for l in open(os.path.join(d, g)):
                    w = l.split()
                    if len(w) == 2:
                        vals.setdefault(w[0], set()).add(float(w[1]))
        for i, (f, line, what, expr) in table.items():
            if not re.search(rx, f):
                continue
            want = []
            for m in bounds(f):
                if m[1] + 1 == line and m[4] == what:
                    v = re.search(r" == (\(.*?\)|\S+?)\) \{", m[3][len(m[2]):]).group(1)
                    want.append(float(eval(v.strip("f") if "e" in v or "." in v else v)))
            got = vals.get(i, set())
            miss = [v for v in want if v not in got and float(__import__("struct").unpack("f", __import__("struct").pack("f", v))[0]) not in got]
            if not got:
                print("%s:%d %s: NEVER CALLED" % (f, line, what))
            elif miss:
                print("%s:%d %s (%d values%s): not %s" % (f, line, what, len(got), ", others" if 1e30 in got or -1e30 in got else "", " ".join("%g" % v for v in miss)))


main2()
