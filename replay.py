#!/usr/bin/env python3
"""replay.py FILE [--quiet]   rebuilds the tree and replays one recorded execution exactly."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
f = sys.argv[1]
j = json.load(open(f))
exe = B.build(j.get("build", "asan"))
cmd = [exe, "replay", "--file", f] + ([] if "--quiet" in sys.argv else ["--trace"])
out = "/tmp/replay-%d.json" % os.getpid()
rc = subprocess.call(cmd + ["--vout", out])
if os.path.exists(out):
    r = json.load(open(out))
    os.unlink(out)
    print("%s: %s\nhash %s (recorded %s): %s" % (r["cls"], r["msg"], r["hash"], j["hash"], "the same execution" if r["hash"] == j["hash"] and r["cls"] == j["cls"] else "DIFFERENT"))
sys.exit(1 if rc == 10 else rc)
