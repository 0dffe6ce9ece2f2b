#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree (content-addressed cache)."""
import fcntl, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "g++"
FLAGS = ["-std=gnu++17", "-O2", "-g1", "-march=native", "-include", "cstdint",
         "-U_FORTIFY_SOURCE", "-w", "-I" + REPO + "/src"]
CORE = ["core", "kern", "rt", "driver", "guard", "main"]
# family -> (scenario source, extra flags, repository programs linked in)
FAMILIES = {
    "net": ("net.cc", [], []),
    "queue": ("queue.cc", [], []),
    "mpc": ("mpc.cc", [], []),
    "hash": ("hash.cc", [], []),
    "exp_mult": ("exp.cc", ["-DEXP_MULT"], ["exp_mult.cc"]),
    "exp_input": ("exp.cc", ["-DEXP_INPUT"], ["exp_input.cc"]),
    "exp_check": ("exp.cc", ["-DEXP_CHECK"], ["exp_check.cc"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                out.append(os.path.relpath(p, root).encode() + b"\0" + read(p))
    return sha(*out)


class BuildError(Exception):
    pass


def compile_one(job):
    src, out, flags = job
    if os.path.exists(out):
        os.utime(out)
        return
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    if os.path.basename(src).startswith("exp_"):  # a program: its main() becomes a function
        r = subprocess.run(["objcopy", "--redefine-sym", "main=exp_main", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("objcopy failed: " + r.stdout)
    os.rename(tmp, out)


def build(targets):
    """targets: list of (family, variant). Returns {(family, variant): path}."""
    obj = os.path.join(BUILD, "obj")
    binr = os.path.join(BUILD, "bin")
    os.makedirs(obj, exist_ok=True)
    os.makedirs(binr, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prune(obj)
        prune(binr)
        ver = subprocess.run([CXX, "-v"], capture_output=True, text=True).stderr
        cpu = ""
        for l in open("/proc/cpuinfo"):
            if l.startswith(("model name", "flags")):
                cpu += l
            if l.strip() == "":
                break
        base = sha(ver, cpu, *FLAGS)
        hdrs = tree_hash(REPO + "/src", (".h", ".hpp", ".hh", ".inc", ".ipp", ".tcc"))
        simh = tree_hash(os.path.join(VERIF, "sim"), (".h",))
        scenh = tree_hash(os.path.join(VERIF, "scen"), (".h",))
        frn = REPO + "/src/frn"
        libsrc, progs = [], {}
        for d, ds, fs in os.walk(REPO + "/src"):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".cc", ".cpp", ".cxx")):
                    if os.path.basename(p).startswith("exp_"):
                        progs[f] = p
                    else:
                        libsrc.append(p)
        jobs, links = {}, {}
        for fam, var in targets:
            src, extra, mains = FAMILIES[fam]
            inst = ["-fsanitize=thread"] if var == "inst" else []
            cflag = ["-DSIM_INST"] if var == "inst" else []
            objs = []

            def add(s, flags, deps):
                o = os.path.join(obj, sha(base, deps, " ".join(flags), s, read(s)) + ".o")
                jobs[o] = (s, o, FLAGS + flags)
                objs.append(o)

            add(os.path.join(VERIF, "scen", src), inst + extra, hdrs + simh + scenh)
            for m in mains:
                if m not in progs:
                    raise BuildError("%s is missing from the repository" % m)
                add(progs[m], inst, hdrs)
            for s in libsrc:
                add(s, inst, hdrs)
            for c in CORE:
                add(os.path.join(VERIF, "sim", c + ".cc"), cflag, simh)
            links[(fam, var)] = objs
        order = sorted(jobs.values(), key=lambda j: 0 if "/scen/" in j[0] else 1)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for _ in ex.map(compile_one, order):
                pass
        res = {}

        def link(t):
            objs = links[t]
            out = os.path.join(binr, "%s-%s-%s" % (t[0], t[1], sha(*objs)))
            if os.path.exists(out):
                os.utime(out)
            else:
                wrap = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"] if t[1] == "inst" else []
                tmp = out + ".tmp%d" % os.getpid()
                r = subprocess.run([CXX, "-o", tmp] + objs + wrap + ["-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError("linking %s failed:\n%s" % (t, r.stdout[-4000:]))
                os.rename(tmp, out)
            res[t] = out

        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for _ in ex.map(link, list(links)):
                pass
        return res


def prune(d, keep=400, maxbytes=1 << 30):
    es = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            st = os.stat(p)
        except OSError:
            continue
        es.append((st.st_mtime, st.st_size, p))
    es.sort(reverse=True)
    tot = 0
    for i, (m, s, p) in enumerate(es):
        tot += s
        if (i >= keep or tot > maxbytes) and time.time() - m > 600:
            os.remove(p)


if __name__ == "__main__":
    ts = []
    for a in sys.argv[1:] or ["all"]:
        if a == "all":
            for f in FAMILIES:
                if os.path.exists(os.path.join(VERIF, "scen", FAMILIES[f][0])):
                    ts += [(f, "fast")] + ([(f, "inst")] if f in ("net", "queue", "mpc") else [])
        else:
            ts.append(tuple(a.split(":")))
    t0 = time.time()
    try:
        r = build(ts)
    except BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
    for k, v in sorted(r.items()):
        print(k[0], k[1], v)
    print("built in %.1f s" % (time.time() - t0))
