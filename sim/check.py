#!/usr/bin/env python3
"""One property check: build the simulator from /repo, search, report.

  check.py --property C01 [--tier quick|thorough] [--seed N]
  check.py --replay replays/C01-1-17.json [-v]
"""
import argparse, glob, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from plan import PLAN, COMPONENTS  # noqa: E402


def sh(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return 124, out
    return p.returncode, out


def replay(path, verbose):
    j = json.load(open(path))
    for fam in PLAN[j["property"]]["families"]:
        exe = B.build([(fam, j["variant"])])[(fam, j["variant"])]
        if "%s %s " % (j["property"], j["scenario"]) in subprocess.run([exe, "list"], capture_output=True, text=True).stdout:
            rc, out = sh([exe, "replay", path] + (["-v"] if verbose else []), 600)
            print(out, end="")
            return rc
    print("no simulator has scenario %s" % j["scenario"])
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay, a.v)
    prop, tier, seed = a.property, a.tier, a.seed
    spec = PLAN[prop]
    t0 = time.time()
    legs = []  # (family, variant, runs, wall)
    for fam in spec["families"]:
        for var in ("fast", "inst"):
            b = spec.get(fam + "-" + var, spec.get(var, {})).get(tier)
            if b:
                legs.append((fam, var, int(b[0] * a.scale), b[1]))
    try:
        exes = B.build([(f, v) for f, v, _, _ in legs])
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    tb = time.time() - t0
    rdir = os.path.join(VERIF, "replays")
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(edir, exist_ok=True)
    workers = os.cpu_count() or 4
    stats, rc_all, viol = [], 0, []
    for fam, var, runs, wall in legs:
        js = os.path.join(B.BUILD, "stats-%s-%s-%s-%d.json" % (prop, fam, var, os.getpid()))
        cmd = [exes[(fam, var)], "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--wall", str(wall),
               "--workers", str(workers), "--tier", tier, "--json", js, "--replay-dir", rdir,
               "--minwall", "40" if tier == "quick" else "120"]
        rc, out = sh(cmd, wall + 400)
        print(out, end="", flush=True)
        st = None
        if os.path.exists(js):
            st = json.load(open(js))
            os.remove(js)
            st["family"], st["variant"] = fam, var
            stats.append(st)
        if rc == 1 and st and st.get("violation"):
            viol.append(st["violation"])
            rc_all = 1
            break
        if rc != 0:
            print("HARNESS ERROR: %s ended with %d" % (" ".join(cmd), rc))
            rc_all = 2
            break
    wall_s = time.time() - t0
    write_evidence(os.path.join(edir, prop + ".json"), prop, tier, seed, spec, stats, tb, wall_s, viol)
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    if not rc_all:
        print("%s: held on everything explored (%.0f s)" % (prop, wall_s))
    return rc_all


def write_evidence(path, prop, tier, seed, spec, stats, tb, wall_s, viol):
    def tot(k):
        return sum(s[k] for s in stats)

    faults, probes, scen = {}, {}, {}
    for s in stats:
        for k, (n, r) in s["faults"].items():
            f = faults.setdefault(k, {"injected": 0, "runs": 0})
            f["injected"] += n
            f["runs"] += r
        for k, (n, r) in s["probes"].items():
            f = probes.setdefault(k, {"count": 0, "runs": 0})
            f["count"] += n
            f["runs"] += r
        for k, n in s["scenarios"].items():
            scen[k] = scen.get(k, 0) + n
    search = sum(s["wall_s"] for s in stats)
    samples = [x for s in stats for x in s["samples"]][:12]
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_nontrivial_interleavings"),
        "rule": spec["rule"] + " One evaluation is one simulated execution, decided by one seed. Counted as distinct and non-trivial: runs that "
                "exercised the property, by the hash of their complete schedule, network and fault event sequence.",
        "samples": samples,
        "distinct_histories": tot("distinct_histories"),
        "runs_per_hour": int(tot("runs") / search * 3600) if search else 0,
        "seeds_per_hour": int(tot("runs") / search * 3600) if search else 0,
        "simulated_seconds": round(tot("simulated_ns") / 1e9, 1),
        "scheduling_points": tot("steps"),
        "faults": faults,
        "probes": probes,
        "scenarios": scen,
        "determinism_rechecks": tot("rechecks"),
        "builds": [{"family": s["family"], "variant": s["variant"], "runs": s["runs"], "wall_s": s["wall_s"], "all_hash": s["allhash"],
                    "memory_accesses": s["memory_accesses"], "shared_memory_accesses": s["shared_accesses"]} for s in stats],
        "components": COMPONENTS,
        "build_s": round(tb, 1),
    }
    if viol:
        cov["violation"] = [{"replay": s["violation"], "class": s["class"], "message": s["message"]} for s in stats if s["violation"]]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ["The simulated kernel, scheduler and happens-before detector in /verif/sim behave like Linux TCP, "
          "POSIX threads and the C++ memory model in the respects listed in DESIGN.md."],
          "wall_s": round(wall_s, 1), "violations": len(viol)}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, path)


if __name__ == "__main__":
    sys.exit(main())
