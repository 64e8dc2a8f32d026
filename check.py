#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   decides one property by seeded search over simulated runs.

Exit 0: held on everything explored. Exit 1 and "VIOLATION property=<id> replay=<file>": it is broken.
Exit 2: the machinery failed. VERIF_SEED, VERIF_TIER, VERIF_TIME (seconds of search), VERIF_JOBS, VERIF_REPO.
"""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

# scenarios of each property (with their share of the search) and how many of eight workers run the
# race build (memory-access pre-emption) instead of the sanitizer build
ALL = ["stream", "queue", "break", "graceful", "forced", "keepalive", "deadpeer", "pull", "idle", "dispatch", "toggle", "lifecycle",
       "limit", "restart", "handles", "signals", "hostile", "maxsize", "connect", "start", "isolation", "crosstalk", "racemix", "rpc", "bare", "many", "patience"]
PLAN = {
    "P01": ({"many": 1, "stream": 4, "dispatch": 2, "queue": 1, "isolation": 1, "break": 1, "keepalive": 1, "crosstalk": 1, "rpc": 1, "bare": 1}, 2),
    "P02": ({"break": 4, "bare": 1, "forced": 2, "crosstalk": 1, "lifecycle": 1, "connect": 1, "restart": 1}, 3),
    "P03": ({"graceful": 5, "deadpeer": 1, "bare": 1, "crosstalk": 1, "lifecycle": 1, "handles": 1}, 3),
    "P04": ({"forced": 4, "bare": 1, "isolation": 2, "lifecycle": 1, "crosstalk": 1, "handles": 1}, 3),
    "P05": ({"keepalive": 4, "stream": 1, "idle": 1, "deadpeer": 1, "pull": 1}, 2),
    "P06": ({"deadpeer": 5, "break": 1, "idle": 1, "keepalive": 1}, 2),
    "P07": ({"patience": 1, "pull": 4, "forced": 1, "signals": 1, "crosstalk": 1, "queue": 1}, 4),
    "P08": ({"queue": 4, "stream": 1, "dispatch": 1, "crosstalk": 1, "rpc": 1}, 5),
    "P09": ({"dispatch": 3, "toggle": 3, "stream": 1, "lifecycle": 1, "crosstalk": 1}, 4),
    "P10": ({"many": 1, "stream": 2, "queue": 2, "break": 2, "rpc": 1, "crosstalk": 1}, 4),
    "P11": ({"crosstalk": 4, "lifecycle": 1, "handles": 1, "restart": 1, "graceful": 1, "forced": 1, "racemix": 1, "limit": 1, "toggle": 1}, 4),
    "P12": ({"hostile": 4, "maxsize": 1}, 1),
    "P13": ({"maxsize": 4, "hostile": 1}, 1),
    "P14": ({"many": 1, "handles": 4, "bare": 1, "lifecycle": 1, "crosstalk": 1, "restart": 1, "forced": 1}, 4),
    "P15": ({"many": 1, "lifecycle": 3, "handles": 1, "dispatch": 1, "restart": 1, "limit": 1, "graceful": 1, "crosstalk": 1, "break": 1}, 4),
    "P16": ({"many": 1, "limit": 4, "lifecycle": 1}, 3),
    "P17": ({"patience": 1, "many": 1, "restart": 4, "start": 2, "signals": 1, "crosstalk": 1, "handles": 1}, 3),
    "P18": ({"patience": 1, "signals": 4, "connect": 1, "pull": 1, "restart": 1, "deadpeer": 1, "lifecycle": 1}, 2),
    "P19": ({"connect": 4, "signals": 1, "idle": 1, "start": 1}, 2),
    "P20": ({s: (2 if s in ("connect", "start", "lifecycle", "restart", "handles", "break", "forced") else 1) for s in ALL if s not in ("hostile",)}, 2),
    "P21": ({"isolation": 4, "pull": 1, "crosstalk": 1, "forced": 1}, 2),
    "P22": ({"idle": 4, "isolation": 1, "keepalive": 1, "limit": 1}, 2),
    "P23": ({s: (4 if s == "racemix" else 2 if s in ("crosstalk", "lifecycle", "handles", "restart", "toggle", "dispatch") else 1)
             for s in ALL if s not in ("hostile", "maxsize")}, 8),
    "P24": ({"patience": 1, "rpc": 6, "crosstalk": 1, "queue": 1, "forced": 1, "deadpeer": 1, "graceful": 1, "isolation": 1, "bare": 1}, 3),
}
KNOWN = os.path.join(HERE, "known_findings.txt")
STUBS = {
    "real": "all of the library: Connection, Server, Client, Request, Datum, Value*, Utils, with their std::thread, std::mutex, condition variables and atomics, compiled from the working tree",
    "simulated": "threads (one fibre each), mutexes, condition variables, semaphores, once/static initialisation, clocks and sleeps, TCP and UNIX sockets, poll/ppoll/select/epoll wait calls, eventfd, timerfd, descriptor tables, the file system entries of UNIX sockets, signals (EINTR), the heap (operator new/delete, malloc)",
    "application": "clients, servers, raw peers and handler code written for the scenarios",
}


def known_findings(prop):
    out = {}
    try:
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def load(p):
    with open(p, errors="replace") as f:
        return json.load(f)


class Search:
    def __init__(self, prop, tier, seed, exes, secs, jobs, work):
        self.prop, self.seed, self.exes, self.secs, self.jobs, self.work = prop, seed, exes, secs, jobs, work
        self.tier = tier
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.procs = set()
        self.viol = []          # (kind, file)
        self.errors = []
        self.agg = {"runs": 0, "simtime": 0.0, "steps": 0, "switches": 0, "cpu": 0.0, "stats": {}, "scenarios": {}, "known": {}, "builds": {}}
        self.samples = []
        self.sets = {"sched": set(), "nontriv": set(), "states": set()}

    def collect(self, st, kind):
        if not os.path.exists(st):
            return 0
        try:
            j = load(st)
        except ValueError:
            return 0
        with self.lock:
            a = self.agg
            for k in ("runs", "steps", "switches"):
                a[k] += j[k]
            a["simtime"] += j["simtime"]
            a["cpu"] += j["wall"]
            for k in ("stats", "scenarios"):
                for n, v in j[k].items():
                    a[k][n] = a[k].get(n, 0) + v
            a["builds"][kind] = a["builds"].get(kind, 0) + j["runs"]
            for k, v in j["known"].items():
                a["known"].setdefault(k, (v, kind))
            if len(self.samples) < 12:
                self.samples += ["[%s] %s" % (kind, x) for x in j["samples"][:1]]
            for n, s in self.sets.items():
                if len(s) > 6000000:
                    continue
                f = st + "." + n
                if os.path.exists(f):
                    v = array.array("Q")
                    v.frombytes(open(f, "rb").read())
                    s.update(v)
        for n in ("", ".sched", ".nontriv", ".states"):
            try:
                os.unlink(st + n)
            except OSError:
                pass
        return j["runs"]

    def worker(self, w, kind, scens, rounds):
        exe = self.exes[kind]
        total = sum(scens.values())
        names = sorted(scens)
        names = names[w % len(names):] + names[:w % len(names)]
        t_end = time.time() + self.secs
        nxt = {}
        for r in range(rounds):
            for i, sc in enumerate(names):
                left = t_end - time.time()
                if left <= 0.05 or self.stop.is_set():
                    return
                rest = sum(scens[n] for n in names[i:]) + total * (rounds - 1 - r)
                slot = max(0.3, left * scens[sc] / rest)
                base = nxt.get(sc, 0)
                # one number space per (VERIF_SEED, scenario): workers take every jobs-th seed
                seed0 = (self.seed << 40) + (ALL.index(sc) << 33) + w + 1 + base * self.jobs
                tag = os.path.join(self.work, "%d-%d-%s" % (w, r, sc))
                cmd = [exe, "run", "--prop", self.prop, "--scen", sc, "--seed0", str(seed0), "--stride", str(self.jobs), "--time", "%.2f" % slot,
                       "--stats", tag + ".st", "--vout", tag + ".viol"]
                with open(tag + ".log", "w") as lg:
                    p = subprocess.Popen(cmd, stdout=lg, stderr=lg, start_new_session=True)
                with self.lock:
                    self.procs.add(p)
                rc = None
                try:
                    rc = p.wait(timeout=slot + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                with self.lock:
                    self.procs.discard(p)
                if self.stop.is_set() and rc not in (0, 10):
                    self.collect(tag + ".st", kind)
                    return
                nxt[sc] = base + self.collect(tag + ".st", kind)
                if rc == 10 and os.path.exists(tag + ".viol"):
                    with self.lock:
                        self.viol.append((kind, tag + ".viol"))
                    self.stop.set()
                    return
                if rc != 0:
                    with self.lock:
                        self.errors.append("%s: exit status %s: %s" % (" ".join(cmd), rc, open(tag + ".log", errors="replace").read()[-800:]))
                    self.stop.set()
                    return
                os.unlink(tag + ".log")

    def run(self):
        scens, nrace = PLAN[self.prop]
        rounds = 2 if self.tier == "quick" else 6
        ths = []
        nr = (nrace * self.jobs + 7) // 8
        for w in range(self.jobs):
            kind = "race" if w < nr else "asan"
            t = threading.Thread(target=self.worker, args=(w, kind, dict(scens), rounds))
            t.start()
            ths.append(t)
        while any(t.is_alive() for t in ths):
            if self.stop.is_set():
                time.sleep(0.3)      # whoever is just finishing may
                with self.lock:
                    for p in self.procs:
                        try:
                            p.terminate()
                        except OSError:
                            pass
            time.sleep(0.05)
        for t in ths:
            t.join()


def sim(exe, args, timeout=300):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1, "", "timeout"


def confirm(exe, f, work):
    """A finding counts if the recorded choices give the same execution in two fresh processes."""
    first = load(f)
    for i in (1, 2):
        o = os.path.join(work, "confirm%d" % i)
        rc, _, err = sim(exe, ["replay", "--file", f, "--vout", o])
        if rc != 10 or not os.path.exists(o):
            return "replay %d ended with %s instead of the violation (%s)" % (i, rc, err[-300:])
        j = load(o)
        if j["cls"] != first["cls"] or j["hash"] != first["hash"]:
            return "replay %d: %s %s instead of %s %s" % (i, j["cls"], j["hash"], first["cls"], first["hash"])
    return None


def report(prop, kind, exe, f, work, shrink_secs):
    bad = confirm(exe, f, work)
    if bad:
        return None, bad
    j = load(f)
    best = os.path.join(work, "best.json")
    if shrink_secs > 0:
        rc, _, err = sim(exe, ["shrink", "--file", f, "--out", best, "--time", str(shrink_secs)], timeout=shrink_secs + 120)
        if not os.path.exists(best):
            print("the schedule could not be minimised (%s): %s" % (rc, err[-200:]))
        if os.path.exists(best):
            b = load(best)
            b["seed"] = j["seed"]
            if b["cls"] == j["cls"] and len(b["choices"]) <= len(j["choices"]):
                with open(best, "w") as o:
                    json.dump(b, o)
                if confirm(exe, best, work) is None:
                    f = best
    out = os.path.join(HERE, "replays", "%s-%s-%s-%s.json" % (prop, j["scenario"], j["seed"], j["cls"].replace(":", "-").replace("/", "-")))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = load(f)
    r["build"] = kind
    r["found_by"] = {"seed": j["seed"], "scenario": j["scenario"], "choices": len(j["choices"])}
    r["how"] = "python3 %s/replay.py %s   (rebuilds the tree, replays the recorded schedule and faults, prints the event trace)" % (HERE, out)
    with open(out, "w") as o:
        json.dump(r, o)
    bad = confirm(exe, out, work)       # the file that is handed out
    return (None, bad) if bad else (out, r)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) & 0x7fffff
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    secs = float(os.environ.get("VERIF_TIME", "40" if tier == "quick" else "1500"))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".work"))
    code = 2
    try:
        code = run(prop, tier, seed, jobs, secs, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(prop, tier, seed, jobs, secs, work, t0):
    kinds = [k for k in ("asan", "race") if (k == "race" and PLAN[prop][1] > 0) or (k == "asan" and PLAN[prop][1] < 8)]
    try:
        exes = B.build_all(kinds)
    except B.BuildError as e:
        print("the tree does not build under the simulator:\n%s" % e)
        return 2
    tb = time.time()
    s = Search(prop, tier, seed, exes, secs, jobs, work)
    s.run()
    ts = time.time()
    code, viol, note = 0, None, ""
    listed = known_findings(prop)
    for kind, f in s.viol:
        out, r = report(prop, kind, exes[kind], f, work, 25 if tier == "quick" else 120)
        if out:
            print("violation of %s: %s: %s" % (prop, r["cls"], r["msg"]))
            print("  scenario %s, seed %s, %s build, %d recorded choices (found with %d), event hash %s" % (
                r["scenario"], r["found_by"]["seed"], kind, len(r["choices"]), r["found_by"]["choices"], r["hash"]))
            print("VIOLATION property=%s replay=%s" % (prop, out))
            code, viol = 1, r
            break
        note = r
    if s.viol and code == 0:
        print("a reported violation did not replay: %s" % note)
        code = 2
    if code == 0 and s.errors:
        print("the simulator failed: %s" % s.errors[0])
        code = 2
    for cls, (msg, kind) in sorted(s.agg["known"].items()):
        if cls in listed:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, listed[cls], msg))
        elif code == 0:
            m = re.search(r"\[scenario (\S+) seed (\d+)\]", msg)
            f = os.path.join(work, "unlisted")
            sim(exes[kind], ["seed", "--prop", prop, "--scen", m.group(1), "--seed", m.group(2), "--strict", "1", "--vout", f])
            out, r = report(prop, kind, exes[kind], f, work, 0) if os.path.exists(f) else (None, "no file")
            if out:
                print("violation of %s: %s: %s" % (prop, r["cls"], r["msg"]))
                print("VIOLATION property=%s replay=%s" % (prop, out))
                code, viol = 1, r
            else:
                print("an unlisted finding did not replay: %s %s: %s" % (cls, msg, r))
                code = 2
    a = s.agg
    wall = max(ts - tb, 0.001)
    faults = {k[6:]: v for k, v in sorted(a["stats"].items()) if k.startswith("fault.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a["runs"],
            "distinct_nontrivial": len(s.sets["nontriv"]),
            "rule": "one evaluation = one simulated execution of the whole system (library code, application threads, network) under one seed; it is non-trivial when it "
                    "reached the property's decisive situation (the scenario marks it: data exchanged, connection ended, server stopped, ...); two are distinct when their "
                    "schedules (sequence of thread switches with the operation each was taken at) differ",
            "samples": s.samples[:12],
            "distinct_schedules": len(s.sets["sched"]),
            "distinct_wait_states": len(s.sets["states"]),
            "state_measure": "hash of the vector (thread, operation it is in, blocked or not) at every thread switch",
            "runs_per_hour": round(a["runs"] / wall * 3600), "seeds": "one new seed per run: VERIF_SEED selects the range",
            "simulated_seconds": round(a["simtime"], 1),
            "thread_switches": a["switches"],
            "intercepted_calls": a["steps"],
            "faults_injected": faults,
            "scheduling": {k[6:]: v for k, v in sorted(a["stats"].items()) if k.startswith("sched.")},
            "workload": {k: v for k, v in sorted(a["stats"].items()) if not k.startswith(("fault.", "sched."))},
            "runs_per_scenario": a["scenarios"],
            "runs_per_build": a["builds"],
            "components": STUBS,
            "build_s": round(tb - t0, 1), "search_s": round(wall, 1),
        },
        "assumptions": [
            "the simulated kernel behaves like Linux for the calls the library makes (DESIGN.md lists the modelled calls and the limits)",
            "sequentially consistent memory: pre-emption between memory accesses is explored, weaker orderings only as reported data races (P23)",
            "sampling: a schedule that no seed reached is not covered",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
        "violation": None if not viol else {"class": viol["cls"], "message": viol["msg"], "scenario": viol["scenario"], "seed": viol["found_by"]["seed"]},
        "known_findings": sorted(k for k in a["known"] if k in listed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct schedules), %.0f simulated seconds, build %.0f s, search %.0f s: %s" % (
        prop, tier, a["runs"], len(s.sets["sched"]), a["simtime"], tb - t0, wall, {0: "held", 1: "VIOLATED", 2: "ERROR"}[code]))
    return code


if __name__ == "__main__":
    main()
