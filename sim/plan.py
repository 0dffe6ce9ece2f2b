"""What each check runs: simulator families, build variants, budgets (runs, wall s).

`fast` builds are plain -O2 (scheduling points at every synchronisation and system call); `inst` builds are compiled with
-fsanitize=thread so that every memory access of the repository's code is a scheduling point and feeds the
happens-before race detector.  Budgets are numbers of runs; the wall limit only cuts a slow machine short.
"""

COMPONENTS = {
    "real": ["all of /repo/src/frn (library, protocols, transport; for C17 also the experiment programs) compiled from the working tree",
             "libstdc++ threads, futures, mutexes, condition variables, iostreams on top of the simulated pthread layer"],
    "stub": ["Linux sockets, clocks, sleeping, pthreads, signals, OS randomness and process lifetime (/verif/sim/kern.cc)",
             "heap allocator entry points (/verif/sim/rt.cc; memory itself comes from glibc)"],
}

HONEST = "Parties follow the protocol; the network may delay and fragment but, as TCP, neither loses nor reorders within a connection."
STREAM = ("Then the seed draws the schedule policy and, per fault kind, a rate: latencies, socket buffer sizes, short reads and writes, EINTR, stalled "
          "threads and processes, spurious wake-ups, clock jumps, heap fill. ")
PLAN = {
    "C01": dict(families=["net"], fast=dict(quick=(120000, 80), thorough=(900000, 900)), inst=dict(quick=(8000, 60), thorough=(60000, 700)),
                rule="A seed draws the network (both layers of the repository, 2-8 parties, hosts), a send/receive plan with split and merged reads, "
                     "zero-length operations, broadcasts and one or two application threads per party, rarely with volumes of megabytes or (once) gigabytes. " + STREAM + "Non-trivial: data crossed between different parties."),
    "C02": dict(families=["net"], fast=dict(quick=(180000, 80), thorough=(900000, 1400)),
                rule="A seed draws one to three networks (2-8 parties, ports, local or listed hosts), the start order and start delays of the parties and the "
                     "duration for which refused or slow connects persist. " + STREAM + "Each channel is identified afterwards by the identities exchanged over it "
                     "and by the simulated connection it uses. Non-trivial: at least one connection between different parties."),
    "C03": dict(families=["net"], fast=dict(quick=(100000, 80), thorough=(800000, 900)), inst=dict(quick=(8000, 60), thorough=(60000, 700)),
                rule="A seed draws the network, the amount each pair has queued when Close runs (up to many socket buffers), late and slow readers, parties that close "
                     "at different times. " + STREAM + "Non-trivial: data was still queued or in flight when some party called Close."),
    "C04": dict(families=["net"], fast=dict(quick=(120000, 80), thorough=(900000, 900)), inst=dict(quick=(8000, 60), thorough=(60000, 700)),
                rule="A seed draws the transfer plan and how peers disappear: early Close, process crash at a chosen point (by scheduling step, system call or byte), "
                     "orderly or abortive teardown, connection reset losing a suffix in flight. " + STREAM + "Non-trivial: a connection ended before everything expected on it arrived."),
    "C05": dict(families=["net"], fast=dict(quick=(110000, 80), thorough=(700000, 1400)),
                rule="A seed draws a history of two to five sessions on the same ports, with rounds of different parties overlapping, or a crash of all parties at a drawn point and "
                     "restarts at different times. " + STREAM + "The descriptor and thread tables of every simulated process are read after each Close. Non-trivial: a second session was connected."),
    "C06": dict(families=["queue", "net"], **{
        "queue-fast": dict(quick=(120000, 40), thorough=(2000000, 500)), "queue-inst": dict(quick=(60000, 40), thorough=(600000, 500)),
        "net-fast": {}, "net-inst": dict(quick=(16000, 80), thorough=(100000, 800))},
                rule="Queue: a seed draws two to six threads and their programs of pushes, front reads, pops and size queries, or a backlog of thousands of items; the recorded history (invocation and response "
                     "order) is searched for a linearization. Transport: transfers, closes and lost peers with every memory access of the code a scheduling point and every "
                     "pair of conflicting accesses checked for a happens-before edge. " + STREAM + "Non-trivial: operations of different threads overlapped, or data crossed."),
}
MPC = ("A seed draws the party count, threshold, seeds, correlation keys (default or freshly dealt) and a program: ")
PLAN.update({
    "C07": dict(families=["mpc"], fast=dict(quick=(42000, 80), thorough=(1000000, 900)), inst=dict(quick=(3500, 60), thorough=(70000, 700)),
                rule=MPC + "several prepare-and-run batches (including empty ones) of products of dealt sharings, special and random field values. " + STREAM +
                     "All parties' outputs are reassembled by an independent implementation of replicated sharing. Non-trivial: at least one product was computed."),
    "C08": dict(families=["mpc"], fast=dict(quick=(42000, 80), thorough=(1000000, 900)), inst=dict(quick=(3000, 60), thorough=(60000, 700)),
                rule=MPC + "contributors, number of values each, announcement order and number of input phases. " + STREAM + "Non-trivial: at least one value was contributed."),
    "C09": dict(families=["mpc"], fast=dict(quick=(30000, 80), thorough=(800000, 900)), inst=dict(quick=(2200, 60), thorough=(40000, 700)),
                rule=MPC + "a random circuit of inputs, linear steps, constants, multiplication layers, openings and checks. " + STREAM +
                     "Opened values are compared with direct evaluation over the field. Non-trivial: at least one value was opened."),
    "C10": dict(families=["mpc"], fast=dict(quick=(30000, 80), thorough=(800000, 900)), inst=dict(quick=(2200, 60), thorough=(40000, 700)),
                rule=MPC + "a circuit, plus process crashes, a failing allocation, a failing write or a reset connection at drawn points. " + STREAM +
                     "Survivors' outputs are compared with an undisturbed execution of the same program. Non-trivial: the failure took effect before the computation ended."),
    "C11": dict(families=["mpc", "net"], **{
        "mpc-fast": dict(quick=(48000, 80), thorough=(1000000, 1000)), "net-fast": dict(quick=(40000, 40), thorough=(600000, 500)),
        "mpc-inst": {}, "net-inst": dict(quick=(2500, 30), thorough=(20000, 300))},
                rule=MPC + "inputs, multiplications, openings and checks; or a plan of transport operations with summaries printed in between. " + STREAM + "Printed summaries are compared with each other, with the bytes on the simulated wire "
                     "and with the protocol's cost formulas. Non-trivial: traffic crossed between different parties."),
    "C12": dict(families=["mpc"], fast=dict(quick=(42000, 80), thorough=(1000000, 900)), inst=dict(quick=(3000, 60), thorough=(60000, 700)),
                rule=MPC + "several multiplication batches. " + STREAM + "The verification records of all parties are reassembled and compared with the inputs and with the messages on the wire. "
                     "Non-trivial: at least one product was recorded."),
    "C13": dict(families=["mpc"], fast=dict(quick=(42000, 80), thorough=(1000000, 900)), inst=dict(quick=(3000, 60), thorough=(60000, 700)),
                rule=MPC + "multiplication batches followed by the check exchange. " + STREAM + "Every byte each party is sent during the exchange is compared with the combination of the dealt "
                     "additive shares the recipient lacks. Non-trivial: at least one message was checked."),
    "C14": dict(families=["mpc"], fast=dict(quick=(50000, 90), thorough=(1100000, 1400)),
                rule=MPC + "sessions of inputs and multiplication batches over several rounds. " + STREAM + "Masks are computed by subtracting the secrets the simulator knows from the bytes on the simulated "
                     "wire. Non-trivial: at least two masked values were seen."),
    "C15": dict(families=["mpc"], fast=dict(quick=(22000, 80), thorough=(600000, 900)), inst=dict(quick=(1500, 60), thorough=(30000, 700)),
                rule=MPC + "a circuit with inputs, multiplications and checks, executed twice with different schedules, delays, start orders, clocks, heap contents and OS randomness. "
                     "Non-trivial: both executions completed and had different event sequences."),
    "C16": dict(families=["mpc"], fast=dict(quick=(54000, 90), thorough=(1200000, 1400)),
                rule=MPC + "openings in which up to d parties send altered shares (independently or colluding) or crash. " + STREAM + "Non-trivial: at least one share was altered or every share was intact and opened."),
    "C17": dict(families=["exp_mult", "exp_input", "exp_check"], fast=dict(quick=(14000, 40), thorough=(350000, 500)),
                rule="A seed draws the program, the party count, the amount of work and the start order; each party is one simulated process running the program's own main(). " + STREAM +
                     "Non-trivial: every process ran the protocol."),
    "C19": dict(families=["mpc"], fast=dict(quick=(50000, 80), thorough=(1000000, 900)), inst=dict(quick=(3500, 60), thorough=(70000, 700)),
                rule="A seed draws the party count, threshold, keys (default, dealt, or dealt by the parties over the network) and one or two threads' histories of random and dummy sharings, "
                     "copies, assignments, new keys and use by multiplication objects. " + STREAM + "The parties' sharings are reassembled by an independent implementation. Non-trivial: at least one random sharing was compared."),
    "C18": dict(families=["hash"], fast=dict(quick=(90000, 90), thorough=(1200000, 1400)),
                rule="A seed draws the digest length, stream contents and lengths (around word and block boundaries), the sender's and the receiver's cuts. " + STREAM + "Non-trivial: bytes were hashed."),
})
for k, s in PLAN.items():
    s.setdefault("assumptions", [])
    if k in ("C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C19"):
        s["assumptions"].append(HONEST)
