#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from plan import PLAN
T = "deterministic simulation with fault injection: seeded search over schedules and faults of whole multi-party executions"
ORACLE = {
    "C01": "per-pair byte stream compared with what was sent; happens-before races",
    "C02": "bounded simulated time, identities over each channel, simulated connection table",
    "C03": "bytes received after the sender's Close, end of stream, bounded return of Close",
    "C04": "prefix oracle per stream; error required once the stream ended short; bounded time",
    "C05": "descriptor and thread tables of each simulated process, following sessions work",
    "C06": "linearizability search against a FIFO, race detector over every memory access",
    "C07": "outputs reassembled by an independent implementation of replicated sharing, compared with field products",
    "C08": "shares reassembled and compared with the contributed values",
    "C09": "opened values compared with evaluation in the clear",
    "C10": "survivors' results compared with an undisturbed execution; no survivor waits forever after crashes",
    "C11": "summaries against each other, the simulated wire and the protocol's cost formulas",
    "C12": "records of all parties reassembled and compared with inputs and wire messages",
    "C13": "every byte of the exchange compared with the combinations computed from the dealt shares",
    "C14": "masks computed from simulated wire minus known secrets: non-zero and all different",
    "C15": "two executions with different schedules, delays, clocks, heap contents and OS randomness agree bit for bit",
    "C16": "error or exact value for every opening, error whenever copies differ",
    "C17": "exit status, standard output and summaries of every process against the simulated wire",
    "C19": "sharings of all parties reassembled by an independent implementation; value, additive shares and their sharings agree",
    "C18": "digests against an independent SHA-3",
}
PURE = ("a pure function of its arguments: no schedule, clock, I/O, randomness or other party can influence it, so a simulated "
        "execution adds nothing to calling it; exercised but not claimed (")
NA = {
    "C30": PURE + "all protocol simulations compute with these elements, and C09's reference evaluation uses independent arithmetic)",
    "C31": PURE + "the protocol simulations C07-C16 reassemble shares with an independent implementation)",
    "C32": PURE + "the protocol simulations rely on equal seeds giving equal streams)",
    "C33": PURE + "no protocol or transport code uses vectors or matrices except the summation of messages)",
    "C34": "validation happens before any thread, socket or timer exists; it is a pure function of the builder's call sequence",
    "C35": PURE + "log text is not consumed by any part of the system)",
}
checks = []
for p in sorted(PLAN):
    inst = any(k.endswith("inst") for k in PLAN[p])
    checks.append({
        "property": p,
        "quick_cmd": "python3 sim/check.py --property %s --tier quick" % p,
        "thorough_cmd": "python3 sim/check.py --property %s --tier thorough" % p,
        "technique": T,
        "level": "exploration",
        "level_note": "Oracle: %s. Sampled by seed, not exhaustive: assurance is that of the recorded number of distinct executions%s. Trusts the simulated "
                      "kernel and scheduler of /verif/sim (see DESIGN.md)." % (ORACLE[p], ", part of them with every memory access of the repository's code a scheduling point" if inst else ""),
    })
m = {"version": 1, "setup_cmd": "python3 sim/build.py all", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the simulator interposes the pthread, socket, clock, randomness and allocation entry points at link time. "
              "Replay a violation with: python3 sim/check.py --replay <path> [-v]"}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
