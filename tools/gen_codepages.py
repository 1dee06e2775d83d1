#!/usr/bin/env python3
"""Writes harness/codepages.inc: what each byte of 8-bit code pages means, from Python's own codecs (not iconv).
Bytes on which the C library's tables knowingly differ from Python's are marked 'don't judge' (0xFFFFFFFF); undefined bytes 0xFFFFFFFE."""
import subprocess, sys, os
LIST = [("ISO-8859-%d" % i, "iso8859_%d" % i) for i in list(range(1, 12)) + [13, 14, 15, 16]]
LIST += [("CP%d" % i, "cp%d" % i) for i in range(1250, 1259)]
LIST += [("CP%d" % i, "cp%d" % i) for i in (437, 850, 852, 855, 857, 860, 861, 862, 863, 865, 866, 869, 874, 737, 775)]
LIST += [("KOI8-R", "koi8_r"), ("KOI8-U", "koi8_u"), ("MACINTOSH", "mac_roman"), ("HP-ROMAN8", "hp_roman8"), ("TIS-620", "tis_620"),
         ("IBM037", "cp037"), ("IBM500", "cp500"), ("KOI8-T", "koi8_t"), ("PT154", "ptcp154"), ("LATIN1", "latin_1"), ("CP1125", "cp1125")]
out, dont = [], 0
for name, py in LIST:
    tab = []
    for b in range(256):
        try:
            p = ord(bytes([b]).decode(py))
        except Exception:
            p = 0xFFFFFFFE
        r = subprocess.run(["iconv", "-f", name, "-t", "UCS-4LE"], input=bytes([b]), capture_output=True)
        i = int.from_bytes(r.stdout, "little") if r.returncode == 0 and len(r.stdout) == 4 else 0xFFFFFFFE
        if i != p:
            dont += 1
            p = 0xFFFFFFFF
        tab.append(p)
    n = sum(1 for t in tab if t < 0xFFFFFFFE)
    if n < 100:
        print("skipped", name, n); continue
    out.append("{ \"%s\", {%s} }," % (name, ",".join("0x%x" % t for t in tab)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "codepages.inc"), "w").write("\n".join(out) + "\n")
print(len(out), "code pages,", dont, "bytes not judged")
