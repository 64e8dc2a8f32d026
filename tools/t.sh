#!/bin/bash
# t.sh kind prop scen time -> runs 8 workers, prints violations
cd /verif; S=$(python3 build.py $1 2>/tmp/build.err) || { grep -h error: /tmp/build.err | head -8; exit 1; }
rm -f /tmp/v.*.json
for i in 1 2 3 4 5 6 7 8; do $S run --prop "$2" --scen $3 --seed0 $((${S0:-0}+i)) --stride 8 --time $4 --vout /tmp/v.$i.json --stats /tmp/st.$i >/tmp/o.$i 2>&1 & done; wait
python3 - <<'P'
import json,glob
r=sum(json.load(open(f"/tmp/st.{i}"))["runs"] for i in range(1,9) if __import__("os").path.exists(f"/tmp/st.{i}"))
print("runs",r)
for f in sorted(glob.glob("/tmp/v.*.json"))[:3]:
    j=json.load(open(f)); print(f,j["scenario"],j["seed"],j["cls"],j["msg"][:300],j["steps"],round(j["simtime"],2),len(j["choices"]))
P
cat /tmp/o.[1-8] | grep -v '^$' | head -5
