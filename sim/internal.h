// Internals shared by the core, the simulated kernel and the runtime hooks.
#pragma once
#include <deque>
#include <map>
#include <unordered_map>
#include "core.h"

namespace sim {
struct Proc;
struct Sock;

struct Fiber {
  enum St { Runnable, Blocked, Stalled, Dead };
  int id = 0;
  Proc* proc = nullptr;
  bool main = false;
  St st = Runnable;
  void* sp = nullptr;
  u8* stack = nullptr;
  size_t stack_size = 0;
  std::function<void()> body;       // main fibers
  void* (*start)(void*) = nullptr;  // pthread fibers
  void* arg = nullptr;
  void* ret = nullptr;
  bool finished = false, detached = false, joined = false;
  WaitQ joiners;
  const char* why = "";
  u64 waitseq = 0;
  bool timedout = false;
  long prio = 0;
  // saved per-fiber runtime state
  int core_depth = 0;
  int err = 0;
  unsigned char cxa[16] = {0};
  void* once_callable = nullptr;
  void (*once_call)() = nullptr;
  std::vector<u8> tls;
  // race detector
  std::vector<u32> clk;
  int quiet = 0;
  int noallocfail = 0;
  int hostile = 0;
};

struct Proc {
  int pid = 0, party = 0, host = 0;
  std::function<void()> main;
  Exit exit = Exit::NotStarted;
  int code = 0;
  std::string error, out;
  std::map<int, Sock*> fds;
  u64 ops = 0, crash_at = 0; bool crash_abortive = false;
  u64 allocs = 0, alloc_fail = 0;
  u64 writes = 0, write_fail = 0; int write_errno = 0;
  u64 threads = 0, thread_fail = 0;
  u64 end_time = 0;
  bool sigpipe_ign = false;
  int live = 0;
};

struct S {  // whole simulator state
  u64 now = 0, nsteps = 0, evseq = 0, stampv = 0;
  u64 delayed = 0;  // sum of the stalls and latencies injected so far: time bounds grow by it
  u64 last_fault_time = 0;
  std::vector<Fiber*> fibers;   // all, by id
  std::vector<Fiber*> live;     // not dead
  std::vector<Proc*> procs;
  void* host_sp = nullptr;
  u64 hash = 0, schedhash = 0;
  u64 rst_at = 0, rst_which = 0;
  i64 clock_off = 0;
  bool over = false;
};
extern S* g;
extern Fiber* cur;        // running fiber or nullptr (host)
extern int core_depth;    // >0 while simulator code runs
extern volatile int sim_on;
static inline bool in_user() { return cur && !core_depth; }
struct Core { Core() { ++core_depth; } ~Core() { --core_depth; } };

void hmix(u64 v);
void ev_after(u64 dt, std::function<void()> f);
void point(const char* op);
void wait_on(WaitQ& q, const char* why);
bool wait_on_timeout(WaitQ& q, const char* why, u64 ns);  // false: timed out
void wake_all(WaitQ& q);
bool wake_one(WaitQ& q);
void wake(Fiber* f);
Fiber* new_fiber(Proc* p);
void start_fiber(Fiber* f);
void fiber_exit(void* ret);
[[noreturn]] void proc_end(Proc* p, Exit e, int code, const char* msg);
void terminate_proc(Proc* p, Exit e, int code, const char* msg, bool abortive);
bool tracing();
u64 rng_u64(Stream s);
double rng_f(Stream s);

// kernel
void kern_close_all(Proc* p, bool abortive);
void kern_reset();
void kern_rst_some(u64 which);
size_t kern_nfds(Proc* p);
// runtime
void rt_fiber_new(Fiber* f, Fiber* parent);
void rt_acquire(const void* key);
void rt_release(const void* key);
void rt_join(Fiber* f);
void rt_access(const void* p, size_t n, bool w);
void rt_reset_range(const void* p, size_t n);
void rt_world_reset();
extern u64 rt_accesses, rt_shared;
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void on_fatal(const char* cls, const char* msg);
}  // namespace sim
