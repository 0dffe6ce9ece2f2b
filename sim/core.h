// Deterministic simulator: public interface used by scenarios.
// One OS thread runs everything; fibers play the threads of simulated
// processes; every source of nondeterminism is decided by recorded draws.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sim {
using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---- draws ---------------------------------------------------------------
// WL: workload shape, SCH: schedule, FLT: faults. 0 is always the simplest /
// most benign value, so zeroing draws simplifies a failing run.
enum Stream { WL = 0, SCH = 1, FLT = 2, NSTREAM = 3 };
u64 decide(Stream s, u64 n, u64 proposal);  // recorded, result in [0,n)
u64 wl(u64 n);                              // uniform workload draw in [0,n)
u64 wl_small(u64 n);                        // biased to small values
u64 flt(u64 n);                             // uniform fault draw in [0,n)
bool coin(Stream s, double p);              // recorded coin (false = benign)
u64 rnd64();                                // content bits: seeded, not recorded
u64 content(u64 key);                       // stateless content bits
u64 seed();
bool thorough();

// ---- fault kinds (counted when they actually fire) -------------------------
enum Fault {
  FK_PREEMPT, FK_LATENCY, FK_BIGDELAY, FK_SHORTREAD, FK_SHORTWRITE, FK_EINTR,
  FK_BUFFULL, FK_STALL, FK_SPURIOUS, FK_CLOCKJUMP, FK_REFUSED, FK_TIMEDOUT,
  FK_CRASH, FK_ABORT_CRASH, FK_RST, FK_ALLOCFAIL, FK_WRITEFAIL, FK_THREADFAIL,
  FK_BYZ, FK_LATESTART, FK_SPLIT, FK_EARLYCLOSE, FK_RESTART, FK_DATALOST, FK_LONGSTALL, FK_SELFCONN, FK_N
};
extern const char* const fault_names[FK_N];
void fault(Fault k, const char* detail = nullptr);
void probe(const char* name, u64 n = 1);  // name must be a literal
void nontrivial();                        // this run exercised its property
void sample(const std::string& s);        // description of the case
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_hash(u64 v);                    // mix a value into the run hash

// ---- configuration of a run ------------------------------------------------
struct Cfg {
  int policy = 0;          // 0 run-to-block, 1 random, 2 PCT, 3..6 starvation
  double preempt = 0;      // random-walk preemption probability
  u64 starve_proc = 0;
  u64 step_ns = 1000;
  u64 cap = 1 << 20;       // bytes in flight per direction
  u64 lat = 0, jit = 0;
  double p_big = 0, p_shortread = 0, p_shortwrite = 0, p_eintr = 0;
  double p_stall = 0, p_spurious = 0, p_clock = 0, p_refuse = 0, p_split = 0, p_selfconn = 0;
  double p_mem = 0;        // preempt at shared memory accesses (inst build)
  u64 mem_gap = 0;         // mean accesses between preemptions (inst build)
  u8 poison = 0xA5;        // content of fresh heap blocks
  u64 heap_mix = 0;        // non-zero: vary the order of the addresses of heap blocks
  bool races = true;
  u64 long_at = 0, long_ns = 0;   // one stall of minutes, at this step
  u64 step_cap = 6000000;
  bool tap = true;            // keep what crosses the wire
  u64 time_cap = 3600ull * 1000000000ull;
  bool cap_follows = true;  // time_cap is extended by the delays injected
  u64 refuse_until = ~0ull;  // injected refusals stop here
};
extern Cfg cfg;
enum Feature : u32 {
  F_SCHED = 1, F_LAT = 2, F_FRAG = 4, F_CAP = 8, F_EINTR = 16, F_STALL = 32,
  F_SPUR = 64, F_CLOCK = 128, F_REFUSE = 256, F_MEM = 512,
  F_ALL = 1023
};
void draw_cfg(u32 features);
bool instrumented();  // true in the build with memory-access preemption

// ---- processes ---------------------------------------------------------------
enum class Exit { Running, NotStarted, Ok, Error, Exited, Assert, Abort, Sigpipe, Crashed };
const char* exit_name(Exit e);
// Spawn a simulated process on a simulated host. Returns its id.
int spawn(int party, int host, u64 start_ns, std::function<void()> main);
Exit proc_exit(int pid);
const std::string& proc_error(int pid);      // what() of an escaped exception
const std::string& proc_stdout(int pid);
int proc_exit_code(int pid);
u64 proc_end_time(int pid);
int open_fds(int pid);                       // sockets currently open
int live_threads(int pid);                   // excluding the calling one
int self_pid();
void kill_proc(int pid, bool abortive);      // crash now
u64 proc_ops(int pid);
// Crash plan: process dies when it has executed `op` scheduling points.
void plan_crash(int pid, u64 op, bool abortive);
void plan_alloc_fail(int pid, u64 nth);      // nth allocation (1-based)
void plan_write_fail(int pid, u64 nth, int err);
void plan_thread_fail(int pid, u64 nth);
void plan_rst(u64 step, u64 which);          // reset some connection
u64 allocs(int pid);
u64 writes(int pid);

struct Outcome {
  bool done = false;      // every process ended
  bool hang = false;      // no runnable fiber, no event, some not ended
  bool capped = false;    // step/time cap hit
  std::string who;        // description of blocked fibers
};
Outcome run();            // run the simulation to quiescence
void reset_world();       // forget processes, sockets (start a new phase)
u64 now_ns();
u64 steps();
u64 stamp();              // strictly increasing event number
void yield_point();       // explicit scheduling point
u64 delayed_ns();  // the stalls and latencies injected so far, summed up
void sleep_ns(u64 ns);
bool in_sim();

// blocking helper for scenario code running inside fibers; no happens-before
// edge is implied and no real synchronisation object is touched.
struct WaitQ { std::vector<void*> w; };
struct Gate {             // counts arrivals; wait(k) blocks until k arrived
  u64 n = 0; WaitQ q;
  void arrive();
  void wait(u64 k);
};
// run f() without instrumentation (bookkeeping inside fibers)
void quiet(const std::function<void()>& f);
struct Quiet { Quiet(); ~Quiet(); };
struct NoFaultAlloc { NoFaultAlloc(); ~NoFaultAlloc(); };

// ---- wire tap ---------------------------------------------------------------------
// All bytes written by process src on connections to process dst, in order.
const std::string& wire(int src_pid, int dst_pid);
u64 wire_conns(int src_pid, int dst_pid);
u64 arrived(int src_pid, int dst_pid);  // bytes that reached the receiver's socket
// byzantine rewriting of outgoing data is done by scenario-level parties.

// ---- verdicts -----------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(c, cls, ...) do { if (!(c)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void only_memory();  // from here on only memory errors and races count
void expect_done(const Outcome& o, const char* what);  // fails with class hang

// ---- scenario registry -----------------------------------------------------------
enum Variant { V_FAST = 1, V_INST = 2, V_BOTH = 3 };
struct Scenario { const char* prop; const char* name; void (*fn)(); int weight; int variant; };
void add_scenario(const Scenario& s);
struct Reg { Reg(const char* p, const char* n, void (*f)(), int w, int v = V_FAST) { add_scenario({p, n, f, w, v}); } };
int driver_main(int argc, char** argv);
void at_warmup(void (*f)());  // run once in the worker before forking runs
}  // namespace sim
