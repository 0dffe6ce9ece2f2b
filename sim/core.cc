// Scheduler, fibers, simulated time, recorded draws and process control.
#include <cxxabi.h>
#include <errno.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

#include <algorithm>
#include <deque>
#include <exception>
#include <memory>
#include <iostream>
#include <mutex>
#include <queue>

#include "internal.h"
#include "driver.h"

namespace sim {
S* g = nullptr;
Fiber* cur = nullptr;
int core_depth = 0;
volatile int sim_on = 0;
Cfg cfg;
Run* R = nullptr;

const char* const fault_names[FK_N] = {
    "preemption", "latency", "big_delay", "short_read", "short_write", "eintr",
    "buffer_full", "stall", "spurious_wakeup", "clock_jump", "conn_refused",
    "conn_timed_out", "crash", "abortive_crash", "connection_reset",
    "alloc_failure", "write_failure", "thread_create_failure", "byzantine_send",
    "late_start", "segment_split", "early_close", "restart", "in_flight_data_lost", "long_stall", "self_connect"};

// ---------------------------------------------------------------- draws
static u64 splitmix(u64& x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rng_state[NSTREAM + 1];
static u64 run_seed;
static bool is_thorough;

u64 rng_u64(Stream s) { return splitmix(rng_state[s]); }
double rng_f(Stream s) { return (rng_u64(s) >> 11) * (1.0 / 9007199254740992.0); }
u64 rnd64() { return splitmix(rng_state[NSTREAM]); }
u64 content(u64 key) {
  u64 x = run_seed ^ (key * 0xD1342543DE82EF95ull);
  splitmix(x);
  return splitmix(x);
}
u64 seed() { return run_seed; }
bool thorough() { return is_thorough; }

void draws_init(u64 sd, bool thor) {
  run_seed = sd;
  is_thorough = thor;
  u64 x = sd;
  for (int i = 0; i <= NSTREAM; i++) rng_state[i] = splitmix(x);
}

u64 decide(Stream s, u64 n, u64 proposal) {
  if (n <= 1) return 0;
  Core c;
  StreamState& d = R->st[s];
  u64 idx = d.n++;
  u64 v;
  if (R->replay) {
    const auto& src = d.src;
    while (d.pos < src.size() && src[d.pos].first < idx) d.pos++;
    v = (d.pos < src.size() && src[d.pos].first == idx) ? src[d.pos].second % n : 0;
  } else {
    v = proposal % n;
  }
  if (v && R->record) d.rec.emplace_back(idx, v);
  return v;
}
u64 wl(u64 n) { return n <= 1 ? 0 : decide(WL, n, rng_u64(WL) % n); }
u64 wl_small(u64 n) {
  if (n <= 1) return 0;
  u64 a = rng_u64(WL) % n, k = rng_u64(WL) % 4;
  return decide(WL, n, k == 0 ? a : k == 1 ? a % std::min<u64>(n, 3) : k == 2 ? a % std::min<u64>(n, 9) : a * (rng_u64(WL) % 1024) / 1024);
}
u64 flt(u64 n) { return n <= 1 ? 0 : decide(FLT, n, rng_u64(FLT) % n); }
bool coin(Stream s, double p) {
  if (p <= 0) return false;
  return decide(s, 2, rng_f(s) < p) != 0;
}

void hmix(u64 v) {
  u64 h = g->hash ^ v;
  h *= 0x9FB21C651E98DF25ull;
  h ^= h >> 32;
  g->hash = h;
}
void note_hash(u64 v) { Core c; hmix(v); }

void fault(Fault k, const char* detail) {
  Core c;
  R->res->faults[k]++;
  if (k != FK_PREEMPT) {
    if (g) g->last_fault_time = g->now;
    if (tracing()) trace("FAULT %s %s", fault_names[k], detail ? detail : "");
  }
}
void probe(const char* name, u64 n) {
  Core c;
  auto* r = R->res;
  for (u32 i = 0; i < r->nprobe; i++)
    if (!strcmp(r->probes[i].name, name)) { r->probes[i].n += n; return; }
  if (r->nprobe < MAXPROBE) {
    snprintf(r->probes[r->nprobe].name, sizeof r->probes[0].name, "%s", name);
    r->probes[r->nprobe++].n = n;
  }
}
void nontrivial() { R->res->nontrivial = 1; }
void sample(const std::string& s) {
  Core c;
  snprintf(R->res->sample, sizeof R->res->sample, "%s", s.c_str());
}
bool tracing() { return R && R->tracing; }
void trace(const char* fmt, ...) {
  if (!tracing()) return;
  Core c;
  char b[600];
  int k = snprintf(b, sizeof b, "[%12.3fus s%llu p%d/f%d] ", g ? g->now / 1e3 : 0.0,
                   g ? (unsigned long long)g->nsteps : 0ull, cur ? cur->proc->pid : -1, cur ? cur->id : -1);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  R->lines.push_back(b);
  if (R->lines.size() > 20000) {  // of the older middle, only what changes who is running or connected
    auto keep = [](const std::string& l) {
      size_t p = l.find("] ");
      if (p == std::string::npos) return true;
      for (const char* k : {"start of ", "process ", "connection ", "accept -> ", "RST ", "FAULT self", "FAULT crash"})
        if (l.compare(p + 2, strlen(k), k) == 0) return true;
      return false;
    };
    auto a = R->lines.begin() + 200, b = R->lines.begin() + 15200;
    auto m = std::stable_partition(a, b, keep);
    if (m - a > 5000) m = a + 100;
    R->lines.erase(m, b);
  }
}

// ---------------------------------------------------------------- config
template <class T, size_t N>
static T pickv(Stream s, const T (&v)[N]) { return v[decide(s, N, rng_u64(s) % N)]; }
void draw_cfg(u32 f) {
  Core c;
  cfg = Cfg();
  auto on = [&](u32 bit) { return (f & bit) && coin(FLT, 0.5); };
  if (f & F_SCHED) {
    cfg.policy = decide(SCH, 7, (u64[]){0, 1, 1, 1, 2, 2, 3, 4, 5, 6}[rng_u64(SCH) % 10]);
    cfg.preempt = pickv(SCH, {0.0, 0.01, 0.05, 0.2, 0.5, 0.9});
    cfg.starve_proc = decide(SCH, 8, rng_u64(SCH) % 8);
  }
  cfg.step_ns = pickv(FLT, {(u64)1000, (u64)100, (u64)10000});
  if (on(F_LAT)) {
    cfg.lat = pickv(FLT, {(u64)0, (u64)5000, (u64)200000, (u64)5000000});
    cfg.jit = pickv(FLT, {(u64)0, (u64)20000, (u64)1000000, (u64)80000000});
    cfg.p_big = pickv(FLT, {0.0, 0.0, 0.002, 0.02});
  }
  if (on(F_FRAG)) {
    cfg.p_shortread = pickv(FLT, {0.0, 0.05, 0.3, 0.9});
    cfg.p_shortwrite = pickv(FLT, {0.0, 0.05, 0.3, 0.9});
    cfg.p_split = pickv(FLT, {0.0, 0.1, 0.5});
  }
  if (on(F_CAP)) cfg.cap = pickv(FLT, {(u64)1 << 20, (u64)65536, (u64)4096, (u64)512, (u64)64, (u64)16, (u64)5, (u64)1});
  if (on(F_EINTR)) cfg.p_eintr = pickv(FLT, {0.0, 0.01, 0.1, 0.4});
  if (on(F_STALL)) cfg.p_stall = pickv(FLT, {0.0, 0.0005, 0.005});
  if ((f & F_STALL) && coin(FLT, 0.04)) {
    cfg.long_ns = pickv(FLT, {(u64)400, (u64)45, (u64)70, (u64)1900}) * 1000000000ull;
    cfg.long_at = 1 + flt(coin(FLT, 0.5) ? 300 : 4000);
  }
  if (on(F_SPUR)) cfg.p_spurious = pickv(FLT, {0.0, 0.05, 0.5});
  if (on(F_CLOCK)) cfg.p_clock = pickv(FLT, {0.0, 0.001, 0.01});
  if (on(F_REFUSE)) cfg.p_refuse = pickv(FLT, {0.0, 0.1, 0.5});
  if ((f & F_MEM) && instrumented()) {
    cfg.p_mem = pickv(SCH, {0.0, 0.02, 0.1, 0.4});
    cfg.mem_gap = pickv(SCH, {(u64)0, (u64)3000, (u64)300, (u64)40});
  }
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  endbr64
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static u8* exe_tls = nullptr;
static size_t exe_tls_size = 0;
static const u8* exe_tls_init = nullptr;
static size_t exe_tls_filesz = 0;
static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      exe_tls_size = info->dlpi_phdr[i].p_memsz;
      exe_tls_filesz = info->dlpi_phdr[i].p_filesz;
      exe_tls_init = (const u8*)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      exe_tls = (u8*)info->dlpi_tls_data;
    }
  return 1;  // only the executable itself
}

struct Saved { int depth, err; unsigned char cxa[16]; void* oc; void (*of)(); std::vector<u8> tls; };
static Saved host_saved;

static void save(int& depth, int& err, unsigned char* cxa, void*& oc, void (*&of)(), std::vector<u8>& tls) {
  depth = core_depth;
  err = errno;
  memcpy(cxa, __cxxabiv1::__cxa_get_globals(), 16);
  oc = std::__once_callable;
  of = std::__once_call;
  if (exe_tls_size && exe_tls) { tls.assign(exe_tls, exe_tls + exe_tls_size); }
}
static void restore(int depth, int err, const unsigned char* cxa, void* oc, void (*of)(), const std::vector<u8>& tls) {
  core_depth = depth;
  errno = err;
  memcpy(__cxxabiv1::__cxa_get_globals(), cxa, 16);
  std::__once_callable = oc;
  std::__once_call = of;
  if (exe_tls_size && exe_tls && !tls.empty()) memcpy(exe_tls, tls.data(), exe_tls_size);
}

static void switch_to(Fiber* to) {  // to == nullptr: host
  Fiber* from = cur;
  if (from == to) return;
  if (from) save(from->core_depth, from->err, from->cxa, from->once_callable, from->once_call, from->tls);
  else save(host_saved.depth, host_saved.err, host_saved.cxa, host_saved.oc, host_saved.of, host_saved.tls);
  cur = to;
  if (to) restore(to->core_depth, to->err, to->cxa, to->once_callable, to->once_call, to->tls);
  else restore(host_saved.depth, host_saved.err, host_saved.cxa, host_saved.oc, host_saved.of, host_saved.tls);
  sim_switch(from ? &from->sp : &g->host_sp, to ? to->sp : g->host_sp);
}

static void fiber_main() {
  Fiber* f = cur;
  core_depth = 0;
  if (f->main) {
    f->body();
    ++core_depth;
    proc_end(f->proc, Exit::Ok, 0, "");
  } else {
    void* r = f->start(f->arg);
    ++core_depth;
    fiber_exit(r);
  }
}

static std::vector<u8*> stack_pool;
static const size_t kStack = 512 * 1024;

Fiber* new_fiber(Proc* p) {
  Core c;
  auto* f = new Fiber;
  f->id = (int)g->fibers.size();
  f->proc = p;
  f->stack_size = kStack;
  if (!stack_pool.empty()) {
    f->stack = stack_pool.back();
    stack_pool.pop_back();
  } else {
    f->stack = (u8*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED) fail("harness", "out of stacks");
    mprotect(f->stack, 4096, PROT_NONE);
  }
  memset(f->stack + kStack - 8192, cfg.poison ^ 0x3c, 8192);
  if (exe_tls_size && exe_tls) {
    f->tls.assign(exe_tls_size, 0);
    memcpy(f->tls.data(), exe_tls_init, exe_tls_filesz);
  }
  void** sp = (void**)(f->stack + kStack);
  *--sp = nullptr;                 // fake return address of fiber_main
  *--sp = (void*)&fiber_main;      // ret target
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp;
  u32 mx; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  ((u32*)sp)[0] = mx;
  ((u32*)sp)[1] = cw;
  f->sp = sp;
  f->prio = (long)(rng_u64(SCH) >> 2);
  g->fibers.push_back(f);
  rt_fiber_new(f, cur);
  return f;
}
void start_fiber(Fiber* f) {
  f->st = Fiber::Runnable;
  g->live.push_back(f);
  f->proc->live++;
}

// ---------------------------------------------------------------- events
struct Ev { u64 t, seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> evq;

void ev_after(u64 dt, std::function<void()> f) {
  Core c;
  evq.push(Ev{g->now + dt, ++g->evseq, std::move(f)});
}
// The environment is patient: what it delays for long happens at the latest
// after so many steps, so that code that polls meanwhile does not exhaust a run.
constexpr u64 PATIENCE = 1000000;
static std::deque<std::pair<u64, std::function<void()>>> pat;
static void env_after(u64 dt, std::function<void()> f) {
  if (dt < 20000000000ull) { ev_after(dt, std::move(f)); return; }
  auto done = std::make_shared<bool>(false);
  auto once = [done, f] { if (!*done) { *done = true; f(); } };
  pat.push_back({g->nsteps + PATIENCE, once});
  ev_after(dt, once);
}
static void fire_due() {
  while (!pat.empty() && pat.front().first <= g->nsteps) {
    auto f = std::move(pat.front().second);
    pat.pop_front();
    f();
  }
  while (!evq.empty() && evq.top().t <= g->now) {
    auto f = std::move(const_cast<Ev&>(evq.top()).f);
    evq.pop();
    f();
  }
}

// ---------------------------------------------------------------- scheduling
static long pct_low = -1;
static Fiber* choose(Fiber* c) {
  static std::vector<Fiber*> cand;
  cand.clear();
  auto& live = g->live;
  bool curok = c && c->st == Fiber::Runnable;
  if (curok) cand.push_back(c);
  // rotation: fibers created after the current one first
  size_t start = 0;
  if (c) { while (start < live.size() && live[start]->id <= c->id) start++; }
  for (size_t i = 0; i < live.size(); i++) {
    Fiber* f = live[(start + i) % live.size()];
    if (f != c && f->st == Fiber::Runnable) cand.push_back(f);
  }
  if (cand.empty()) return nullptr;
  if (cand.size() == 1) return cand[0];
  u64 prop = 0;
  size_t n = cand.size();
  if (!R->replay) {
    auto rw = [&](size_t m) -> u64 {  // random walk among first m
      if (curok && rng_f(SCH) >= cfg.preempt) return 0;
      return rng_u64(SCH) % m;
    };
    switch (cfg.policy) {
      case 0: prop = 0; break;
      case 1: prop = rw(n); break;
      case 2: {
        if (curok && (rng_u64(SCH) & 127) == 0) c->prio = pct_low--;
        for (size_t i = 1; i < n; i++) if (cand[i]->prio > cand[prop]->prio) prop = i;
        break;
      }
      default: {
        auto starved = [&](Fiber* f) {
          switch (cfg.policy) {
            case 3: return !f->main;
            case 4: return f->main;
            case 5: return f->proc->pid == (int)(cfg.starve_proc % g->procs.size());
            default: return (f->id * 2654435761u >> 16) % 3 == cfg.starve_proc % 3;
          }
        };
        static std::vector<u64> idx;
        idx.clear();
        for (size_t i = 0; i < n; i++) if (!starved(cand[i])) idx.push_back(i);
        if (idx.empty() || (rng_u64(SCH) & 255) == 0) prop = rw(n);
        else if (curok && idx[0] == 0 && rng_f(SCH) >= cfg.preempt) prop = 0;
        else prop = idx[rng_u64(SCH) % idx.size()];
      }
    }
  }
  return cand[decide(SCH, n, prop)];
}

enum { ST_RUN = 0, ST_QUIET, ST_STEPCAP, ST_TIMECAP };
static int status;
static void to_host(int st) { status = st; switch_to(nullptr); }

static void go(Fiber* n) {
  if (n != cur) {
    hmix(0x1000 + n->id);
    g->schedhash = (g->schedhash ^ (u64)n->id) * 0x100000001B3ull + g->schedhash % 7;
    switch_to(n);
  }
}
static void away() {  // current fiber cannot continue now
  for (;;) {
    fire_due();
    Fiber* n = choose(cur);
    if (n) { go(n); return; }
    if (evq.empty()) { to_host(ST_QUIET); if (!cur) return; continue; }
    g->now = evq.top().t;
    if (g->now > cfg.time_cap + (cfg.cap_follows ? cfg.long_ns + g->delayed : 0)) { to_host(ST_TIMECAP); if (!cur) return; continue; }
  }
}
void wake(Fiber* f) {
  if (f->st == Fiber::Blocked) { f->st = Fiber::Runnable; f->waitseq++; }
}
void wait_on(WaitQ& q, const char* why) {
  Fiber* f = cur;
  f->st = Fiber::Blocked;
  f->why = why;
  f->waitseq++;
  q.w.push_back(f);
  if (tracing()) trace("block %s", why);
  away();
}
bool wait_on_timeout(WaitQ& q, const char* why, u64 ns) {
  Fiber* f = cur;
  u64 ws = f->waitseq + 1;
  f->timedout = false;
  ev_after(ns, [f, ws] {
    if (f->st == Fiber::Blocked && f->waitseq == ws) { f->timedout = true; f->st = Fiber::Runnable; f->waitseq++; }
  });
  wait_on(q, why);
  // a timed-out fiber may still be listed; drop it
  for (size_t i = 0; i < q.w.size(); i++) if (q.w[i] == f) { q.w.erase(q.w.begin() + i); break; }
  return !f->timedout;
}
void wake_all(WaitQ& q) {
  auto w = std::move(q.w);
  q.w.clear();
  for (void* p : w) wake((Fiber*)p);
}
bool wake_one(WaitQ& q) {
  auto& w = q.w;
  for (size_t i = 0; i < w.size();) {
    Fiber* f = (Fiber*)w[i];
    if (f->st != Fiber::Blocked) w.erase(w.begin() + i); else i++;
  }
  if (w.empty()) return false;
  u64 k = decide(SCH, w.size(), cfg.policy == 0 ? 0 : rng_u64(SCH) % w.size());
  Fiber* f = (Fiber*)w[k];
  w.erase(w.begin() + k);
  wake(f);
  return true;
}
static void stall(u64 ns) {
  WaitQ q;
  Fiber* f = cur;
  f->st = Fiber::Stalled;
  f->why = "stalled";
  env_after(ns, [f] { if (f->st == Fiber::Stalled) f->st = Fiber::Runnable; });
  away();
}

void point(const char* op) {
  Fiber* f = cur;
  Proc* p = f->proc;
  p->ops++;
  g->nsteps++;
  g->now += cfg.step_ns;
  if (tracing() && R->trace_ops) trace("%s", op);
  if (g->nsteps > cfg.step_cap) to_host(ST_STEPCAP);
  if (p->crash_at && p->ops >= p->crash_at) {
    p->crash_at = 0;
    fault(p->crash_abortive ? FK_ABORT_CRASH : FK_CRASH, op);
    terminate_proc(p, Exit::Crashed, 0, "crashed", p->crash_abortive);
  }
  if (g->rst_at && g->nsteps >= g->rst_at) {
    g->rst_at = 0;
    kern_rst_some(g->rst_which);
  }
  if (cfg.p_clock > 0 && coin(FLT, cfg.p_clock)) {
    static const i64 j[] = {0, 1000000, -1000000, 3600000000000, -3600000000000, -5000000000, 86400000000000};
    g->clock_off += j[flt(7)];
    fault(FK_CLOCKJUMP);
  }
  fire_due();
  if (cfg.long_at && g->nsteps >= cfg.long_at) {
    cfg.long_at = 0;
    fault(FK_LONGSTALL);
    stall(cfg.long_ns);
    return;
  }
  if (cfg.p_stall > 0 && coin(FLT, cfg.p_stall)) {
    static const u64 d[] = {10000, 1000000, 30000000, 400000000, 5000000000};
    fault(FK_STALL);
    u64 ns = d[flt(5)];
    g->delayed += ns;
    stall(ns);
    return;
  }
  Fiber* n = choose(f);
  if (!n) { away(); return; }
  if (n != f) {
    if (f->st == Fiber::Runnable) R->res->faults[FK_PREEMPT]++;
    go(n);
  }
}
u64 delayed_ns() { return g ? g->delayed : 0; }
void yield_point() { if (cur) { Core c; point("yield"); } }
void sleep_ns(u64 ns) {
  if (!cur) return;
  Core c;
  WaitQ q;
  point("sleep");
  wait_on_timeout(q, "sleep", ns);
}
bool in_sim() { return cur != nullptr; }
u64 now_ns() { return g->now; }
u64 steps() { return g->nsteps; }
u64 stamp() { return ++g->stampv; }

void Gate::arrive() { Core c; n++; wake_all(q); if (cur) point("gate"); }
void Gate::wait(u64 k) { Core c; while (n < k) wait_on(q, "gate"); }

Quiet::Quiet() { if (cur) cur->quiet++; }
Quiet::~Quiet() { if (cur) cur->quiet--; }
NoFaultAlloc::NoFaultAlloc() { if (cur) cur->noallocfail++; }
NoFaultAlloc::~NoFaultAlloc() { if (cur) cur->noallocfail--; }
void quiet(const std::function<void()>& f) { Quiet q; f(); }

// ---------------------------------------------------------------- processes
const char* exit_name(Exit e) {
  static const char* n[] = {"running", "not started", "ok", "error", "exit", "assert", "abort", "sigpipe", "crashed"};
  return n[(int)e];
}
int spawn(int party, int host, u64 start, std::function<void()> m) {
  Core c;
  auto* p = new Proc;
  p->pid = (int)g->procs.size();
  p->party = party;
  p->host = host;
  p->main = std::move(m);
  g->procs.push_back(p);
  if (start) fault(FK_LATESTART);
  env_after(start, [p] {
    if (p->exit != Exit::NotStarted) return;
    p->exit = Exit::Running;
    Fiber* f = new_fiber(p);
    f->main = true;
    f->body = p->main;
    start_fiber(f);
    if (tracing()) trace("start of process %d", p->pid);
  });
  return p->pid;
}
void terminate_proc(Proc* p, Exit e, int code, const char* msg, bool abortive) {
  Core c;
  if (p->exit != Exit::Running && p->exit != Exit::NotStarted) return;
  p->exit = e;
  p->code = code;
  p->error = msg;
  p->end_time = g->now;
  hmix(0x2000 + p->pid * 16 + (int)e);
  if (tracing()) trace("process %d ends: %s (%s)", p->pid, exit_name(e), msg);
  bool self = cur && cur->proc == p;
  auto& live = g->live;
  for (auto* f : live)
    if (f->proc == p) { f->st = Fiber::Dead; if (f != cur) stack_pool.push_back(f->stack); }
  live.erase(std::remove_if(live.begin(), live.end(), [&](Fiber* f) { return f->proc == p; }), live.end());
  p->live = 0;
  kern_close_all(p, abortive);
  if (self) { away(); on_fatal("harness", "dead fiber resumed"); }
}
void proc_end(Proc* p, Exit e, int code, const char* msg) {
  ++core_depth;
  terminate_proc(p, e, code, msg, false);
  __builtin_trap();
}
void fiber_exit(void* ret) {
  Fiber* f = cur;
  f->ret = ret;
  f->finished = true;
  f->st = Fiber::Dead;
  rt_release(f);
  wake_all(f->joiners);
  auto& live = g->live;
  live.erase(std::find(live.begin(), live.end(), f));
  f->proc->live--;
  static u8* zombie = nullptr;  // still in use until the switch: reuse it later
  if (zombie) stack_pool.push_back(zombie);
  zombie = f->stack;
  if (tracing()) trace("thread exits");
  away();
  __builtin_trap();
}
Exit proc_exit(int pid) { return g->procs[pid]->exit; }
const std::string& proc_error(int pid) { return g->procs[pid]->error; }
const std::string& proc_stdout(int pid) { return g->procs[pid]->out; }
int proc_exit_code(int pid) { return g->procs[pid]->code; }
u64 proc_end_time(int pid) { return g->procs[pid]->end_time; }
int live_threads(int pid) {
  Proc* p = g->procs[pid];
  return p->live - (cur && cur->proc == p ? 1 : 0);
}
int self_pid() { return cur ? cur->proc->pid : -1; }
void kill_proc(int pid, bool abortive) {
  Core c;
  Proc* p = g->procs[pid];
  if (p->exit != Exit::Running && p->exit != Exit::NotStarted) return;
  fault(abortive ? FK_ABORT_CRASH : FK_CRASH);
  terminate_proc(p, Exit::Crashed, 0, "crashed", abortive);
}
u64 proc_ops(int pid) { return g->procs[pid]->ops; }
void plan_crash(int pid, u64 op, bool ab) { g->procs[pid]->crash_at = op; g->procs[pid]->crash_abortive = ab; }
void plan_alloc_fail(int pid, u64 n) { g->procs[pid]->alloc_fail = n; }
void plan_write_fail(int pid, u64 n, int e) { g->procs[pid]->write_fail = n; g->procs[pid]->write_errno = e; }
void plan_thread_fail(int pid, u64 n) { g->procs[pid]->thread_fail = n; }
void plan_rst(u64 step, u64 which) { g->rst_at = step; g->rst_which = which; }
u64 allocs(int pid) { return g->procs[pid]->allocs; }
u64 writes(int pid) { return g->procs[pid]->writes; }
int open_fds(int pid) { return (int)kern_nfds(g->procs[pid]); }

// stdout of simulated processes
struct RouteBuf : std::streambuf {
  int overflow(int ch) override {
    if (cur && ch != EOF) { Core c; cur->proc->out.push_back((char)ch); }
    return ch == EOF ? 0 : ch;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (cur) { Core c; cur->proc->out.append(s, n); }
    return n;
  }
};

static void on_terminate() {
  ++core_depth;
  if (!cur) { on_fatal("crash", "exception outside the simulated processes"); }
  char msg[256] = "unknown exception";
  Exit e = Exit::Abort;
  if (auto ep = std::current_exception()) {
    e = Exit::Error;
    try { std::rethrow_exception(ep); }
    catch (const std::exception& x) { snprintf(msg, sizeof msg, "%s", x.what()); }
    catch (...) {}
  }
  proc_end(cur->proc, e, 134, msg);
}

Outcome run() {
  Core c;
  Outcome o;
  status = ST_RUN;
  away();
  o.done = true;
  for (auto* p : g->procs)
    if (p->exit == Exit::Running || p->exit == Exit::NotStarted) o.done = false;
  o.capped = status == ST_STEPCAP || status == ST_TIMECAP;
  if (!o.done && !o.capped) o.hang = true;
  if (!o.done)
    for (auto* f : g->live) {
      if (o.who.size() > 300) break;
      char b[96];
      snprintf(b, sizeof b, "p%d/%s:%s ", f->proc->pid, f->main ? "main" : "thread", f->why);
      o.who += b;
    }
  R->res->steps += g->nsteps;
  R->res->simtime += g->now;
  return o;
}
void expect_done(const Outcome& o, const char* what) {
  if (o.done) return;
  fail("hang", "%s: %s; waiting: %s", what, o.capped ? "no end within the step/time bound" : "nothing can make progress", o.who.c_str());
}

void reset_world() {
  Core c;
  u64 h = g ? g->hash : 0xcbf29ce484222325ull, sh = g ? g->schedhash : 14695981039346656037ull;
  if (g) for (auto* f : g->live) stack_pool.push_back(f->stack);
  g = new S;
  g->hash = h;
  g->schedhash = sh;
  evq = {};
  pat.clear();
  pct_low = -1;
  kern_reset();
  rt_world_reset();
}
void core_init() {
  dl_iterate_phdr(phdr_cb, nullptr);
  std::set_terminate(on_terminate);
  static RouteBuf rb;
  std::cout.rdbuf(&rb);
  std::cerr.rdbuf(&rb);
}
}  // namespace sim
