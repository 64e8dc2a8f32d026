#!/usr/bin/env python3
"""Builds the simulator around the library sources of /repo's working tree.

build(kind) -> path of the executable; kinds: asan, race.
Everything goes to /verif/.build/<kind>-<hash of every input>/.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
SIM = os.path.join(HERE, "sim")
COMMON = ["-g", "-fno-omit-frame-pointer", "-fno-pie", "-pthread", "-fno-gnu-unique", "-U_FORTIFY_SOURCE", "-std=gnu++17", "-w"]
LIBINC = ["-I" + REPO]          # the only flag that names a path of the tree
CORE = ["core", "kernel", "wrap", "heap", "race", "main"]
KINDS = {
    # kind: (flags of library code, flags of simulator code, link flags)
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,vptr,object-size", "-fdata-sections", "-ftrivial-auto-var-init=pattern", "-DSIM_ASAN"],
             ["-O2", "-DSIM_ASAN"], ["-fsanitize=address,undefined"]),
    "race": (["-O1", "-fsanitize=thread", "-fdata-sections", "-DSIM_RACE"], ["-O2", "-DSIM_RACE"], []),
}


class BuildError(Exception):
    pass


def lib_sources():
    return sorted(glob.glob(REPO + "/*.cpp")) + sorted(glob.glob(REPO + "/values/*.cpp"))


def lib_headers():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if not x.startswith(".") and x not in ("build", "tests", "docs"))
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".hpp", ".h", ".inl", ".inc", ".ipp", ".tpp", ".hxx", ".hh"))]
    return r


def sim_files():
    return sorted(glob.glob(SIM + "/*.cpp")) + sorted(glob.glob(SIM + "/*.hpp")) + [SIM + "/wraplist.txt", os.path.abspath(__file__)]


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def source_hash():
    return digest(lib_sources() + lib_headers() + sim_files())


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def prune(keep=8):
    ds = [d for d in glob.glob(OUT + "/*-*") if os.path.isdir(d) and not d.endswith("objs")]

    def age(d):
        try:
            return time.time() - os.path.getmtime(d)
        except OSError:       # another process was faster
            return 0
    ds.sort(key=age)
    for d in ds[keep:]:
        if age(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def content(files, base, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.relpath(f, base).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def prune_objs(d, keep=600):
    try:
        fs = sorted(glob.glob(d + "/*.o"), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            if time.time() - os.path.getmtime(f) > 3600:
                os.unlink(f)
    except OSError:
        pass


def build(kind):
    libf, simf, linkf = KINDS[kind]
    key = digest(lib_sources() + lib_headers() + sim_files(), kind + repr(KINDS[kind]) + repr(COMMON) + REPO)
    d = os.path.join(OUT, "%s-%s" % (kind, key))
    exe = os.path.join(d, "sim")
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "%s-%s.lock" % (kind, os.environ.get("VERIF_BUILD_LANE", ""))), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(d)
            return exe
        prune()
        os.makedirs(d, exist_ok=True)
        # objects are kept by content, so that only what has changed is compiled again
        objs = os.path.join(OUT, kind + "-objs")
        os.makedirs(objs, exist_ok=True)
        prune_objs(objs)
        jobs, liblist, simlist = [], [], []
        heads = content(lib_headers(), REPO)

        def add(lst, s, name, key, flags):
            o = os.path.join(objs, "%s-%s.o" % (name, key))
            lst.append(o)
            if os.path.exists(o):
                os.utime(o)
            else:
                jobs.append(["g++", "-c", s, "-o", o] + flags)
        for s in lib_sources() + [SIM + "/api.cpp"]:
            fl = COMMON + libf + LIBINC + ["-I" + SIM]
            add(liblist, s, "lib_" + os.path.basename(s), content([s], os.path.dirname(s), heads + repr(fl[:-2]) + os.path.dirname(os.path.relpath(s, REPO))), fl)
        corefiles = [SIM + "/sim.hpp", SIM + "/kernel.hpp"]
        for s in sorted(glob.glob(SIM + "/*.cpp")):
            b = os.path.basename(s)[:-4]
            if b == "api":
                continue
            fl = COMMON + simf
            if b in CORE:
                add(simlist, s, b, content(corefiles + [s], SIM, repr(fl)), fl)
            else:
                add(simlist, s, b, content(corefiles + [SIM + "/harness.hpp", s], SIM, heads + repr(fl)), fl + LIBINC)

        def one(j):
            o = j[j.index("-o") + 1]
            t = o + ".tmp%d.o" % os.getpid()
            k = list(j)
            k[k.index("-o") + 1] = t
            run(k)
            os.rename(t, o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        # the library's static data gets a section of its own, so that every run starts from its initial state
        one_lib = os.path.join(d, "library.o")
        script = os.path.join(d, "library.ld")
        with open(script, "w") as f:
            f.write("SECTIONS { .data.rel.ro 0 : { *(.data.rel.ro .data.rel.ro.*) } .data 0 : { *(.data..L* .data.rel.local..L* .bss..L*) } simlibdata 0 : { *(.data .data.* .bss .bss.* COMMON) } }\n")
        run(["ld", "-r", "--force-group-allocation", "-T", script, "-o", one_lib] + liblist)
        syms = open(SIM + "/wraplist.txt").read().split()
        if kind == "race":
            syms += ["memcpy", "memmove", "memset", "memcmp", "strlen"]
        link = ["g++", "-o", exe + ".tmp", one_lib] + simlist + ["-no-pie", "-static-libstdc++", "-static-libgcc", "-pthread"] + linkf
        link += ["-Wl,--wrap=" + s for s in syms]
        run(link)
        os.unlink(one_lib)
        os.rename(exe + ".tmp", exe)
    return exe


def build_all(kinds):
    with ThreadPoolExecutor(len(kinds)) as ex:
        return dict(zip(kinds, ex.map(build, kinds)))


if __name__ == "__main__":
    for k in sys.argv[1:] or list(KINDS):
        print(build(k))
