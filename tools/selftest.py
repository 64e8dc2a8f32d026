#!/usr/bin/env python3
"""Determinism self-test: the hash of every run must be the same in a long batch, in another batch that
runs other seeds before it, and in a process of its own.   selftest.py [runs per scenario]"""
import json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import build
N = int(sys.argv[1]) if len(sys.argv) > 1 else 24
SCEN = re.findall(r'X\((\w+), sc', open(build.SIM + "/scenarios.cpp").read())
bad = total = 0
for kind in ("asan", "race"):
    exe = build.build(kind)
    def batch(sc, seed0, stride, count):
        f = tempfile.mktemp()
        subprocess.run([exe, "run", "--prop", "P23" if kind == "race" else "", "--scen", sc, "--seed0", str(seed0), "--stride", str(stride), "--count", str(count), "--maxviol", "999999", "--vout", "/dev/null", "--hashes", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = {int(l.split()[1]): l.split()[2] for l in open(f)}
        os.unlink(f)
        return r
    for sc in SCEN:
        a = batch(sc, 1, 1, N)
        b = batch(sc, N, -1 & (2**64 - 1), N)      # the same seeds in the opposite order
        for s in sorted(a):
            total += 1
            h = a[s]
            if b.get(s) != h:
                bad += 1; print("DIFFERENT", kind, sc, s, h, b.get(s)); continue
            if s % 4 == 0:
                p = subprocess.run([exe, "seed", "--prop", "P23" if kind == "race" else "", "--scen", sc, "--seed", str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                m = re.search(r'"hash":"(\w+)"', p.stdout)
                if not m or m.group(1) != h: bad += 1; print("DIFFERENT alone", kind, sc, s, h, m and m.group(1))
print("%d runs, %d differences" % (total, bad))
sys.exit(bad != 0)
