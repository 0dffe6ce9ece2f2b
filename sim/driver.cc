// Command line: seed search in forked children, minimisation, replay.
#include "driver.h"

#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <unordered_set>

#include "internal.h"

extern "C" char __libc_single_threaded;

namespace sim {
static std::vector<Scenario>* scens() { static auto* v = new std::vector<Scenario>; return v; }
static std::vector<void (*)()>* warm() { static auto* v = new std::vector<void (*)()>; return v; }
void add_scenario(const Scenario& s) { scens()->push_back(s); }
void at_warmup(void (*f)()) { warm()->push_back(f); }

struct Dump {  // shared memory: draws and trace of one run
  u64 n[NSTREAM], len[NSTREAM];
  u64 tlen;
  u64 off;
  char data[1];
};
static Dump* dump;
static const size_t kDump = 512ull << 20;
static u8 altstack[65536];

static double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void run_finish() {
  ++core_depth;
  Result* r = R->res;
  r->hash = g ? g->hash : 0;
  r->schedhash = g ? g->schedhash : 0;
  r->accesses = rt_accesses;
  r->shared = rt_shared;
  if (R->record && dump) {
    char* p = dump->data;
    for (int i = 0; i < NSTREAM; i++) {
      dump->n[i] = R->st[i].n;
      dump->len[i] = R->st[i].rec.size();
      size_t b = R->st[i].rec.size() * sizeof(R->st[i].rec[0]);
      if (p + b > (char*)dump + kDump / 2) { dump->len[i] = 0; continue; }
      memcpy(p, R->st[i].rec.data(), b);
      p += b;
    }
    char* e = (char*)dump + kDump;
    dump->off = p - dump->data;
    for (auto& l : R->lines) {
      if (p + l.size() + 2 > e) break;
      memcpy(p, l.data(), l.size());
      p += l.size();
      *p++ = '\n';
    }
    dump->tlen = p - dump->data - dump->off;
  }
  raw_syscall(SYS_exit_group, 0);
  __builtin_trap();
}
static bool memonly;
void only_memory() { memonly = true; }
static void verdict(const char* cls, const char* msg) {
  Result* r = R->res;
  if (r->state) return;
  if (memonly && strcmp(cls, "data-race") && strcmp(cls, "memory-error") && strcmp(cls, "harness")) {
    probe("ended early for another reason");
    r->state = 1;
    return;
  }
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  snprintf(r->msg, sizeof r->msg, "%s", msg);
  r->state = strcmp(cls, "harness") ? 2 : 3;
  if (g) { r->steps += g->nsteps; r->simtime += g->now; }
}
void fail(const char* cls, const char* fmt, ...) {
  ++core_depth;
  char b[680];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (R->tracing) trace("VERDICT %s: %s", cls, b);
  verdict(cls, b);
  run_finish();
}
void on_fatal(const char* cls, const char* msg) {
  ++core_depth;
  if (!R || !R->res) {
    fprintf(stderr, "fatal outside a run: %s %s\n", cls, msg);
    raw_syscall(SYS_exit_group, 3);
  }
  verdict(cls, msg);
  run_finish();
}
static void on_signal(int s) {
  ++core_depth;
  if (s == SIGPROF) on_fatal("livelock", "the code under test used more than 40 s of processor time in one run");
  const char* where = cur ? "" : " (outside the simulation)";
  char b[128];
  snprintf(b, sizeof b, "signal %d%s", s, where);
  on_fatal("memory-error", b);
}

struct Spec {
  const Scenario* sc;
  u64 seed;
  bool thorough = false, replay = false, record = false, trace = false, ops = false;
  std::vector<std::pair<u64, u64>> draws[NSTREAM];
};
static void child(const Spec& sp, Result* res) {
  R = new Run;
  R->res = res;
  R->replay = sp.replay;
  R->record = sp.record;
  R->tracing = sp.trace;
  R->trace_ops = sp.ops;
  if (sp.replay) for (int i = 0; i < NSTREAM; i++) R->st[i].src = sp.draws[i];
  draws_init(sp.seed, sp.thorough);
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP, SIGABRT}) sigaction(s, &sa, nullptr);
  itimerval it{};
  it.it_value.tv_sec = 40;
  setitimer(ITIMER_PROF, &it, nullptr);
  reset_world();
  sim_on = 1;
  sp.sc->fn();
  sim_on = 0;
  res->state = 1;
  run_finish();
}
static void exec_run(const Spec& sp, Result* res) {
  memset((void*)res, 0, sizeof *res);
  if (sp.record) { dump->tlen = 0; for (auto& l : dump->len) l = 0; }
  pid_t p = fork();
  if (p == 0) child(sp, res);
  if (p < 0) { res->state = 3; snprintf(res->cls, sizeof res->cls, "harness"); snprintf(res->msg, sizeof res->msg, "fork failed"); return; }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!res->state) {
    res->state = 3;
    snprintf(res->cls, sizeof res->cls, "harness");
    snprintf(res->msg, sizeof res->msg, "run ended without a verdict (status %x)", st);
  }
}
static void load_dump(Spec& sp, u64* n = nullptr) {
  char* p = dump->data;
  for (int i = 0; i < NSTREAM; i++) {
    sp.draws[i].assign((std::pair<u64, u64>*)p, (std::pair<u64, u64>*)p + dump->len[i]);
    p += dump->len[i] * 16;
    if (n) n[i] = dump->n[i];
  }
}

// ---------------------------------------------------------------- search
enum { MAXRUNS = 4000000 };
struct Agg {
  u64 runs, nontrivial, steps, simtime, rechecks, accesses, shared;
  u64 faults[FK_N], fruns[FK_N];
  u32 nprobe;
  struct { char name[44]; u64 n, runs; } probes[MAXPROBE * 2];
  char samples[6][400];
  u32 nsamples;
  u64 scen_runs[64];
};
struct Shared {
  volatile u64 bad;        // lowest failing run index + 1, 0 none
  volatile u64 next;
  volatile u64 harness;    // harness failure index + 1
  char hmsg[800];
  Agg agg[64];
};
static u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull;
  x ^= x >> 31; x *= 0x94D049BB133111EBull; x ^= x >> 29;
  return x;
}
struct Opt {
  std::string prop, scenario, json, rdir = ".";
  u64 seed = 1, runs = 1000, from = 0;
  int workers = 8;
  double wall = 60, minwall = 40;
  bool thorough = false;
};
static std::vector<const Scenario*> select(const Opt& o) {
  std::vector<const Scenario*> v;
  int var = instrumented() ? V_INST : V_FAST;
  for (auto& s : *scens())
    if (o.prop == s.prop && (s.variant & var) && (o.scenario.empty() || o.scenario == s.name))
      for (int i = 0; i < s.weight; i++) v.push_back(&s);
  return v;
}
static Spec spec_of(const Opt& o, const std::vector<const Scenario*>& v, u64 idx) {
  Spec sp;
  u64 ph = 0;
  for (char c : o.prop) ph = ph * 131 + c;
  sp.seed = mix(mix(o.seed, ph), idx);
  sp.sc = v[idx % v.size()];
  // scenarios of weight zero are executed once, at fixed numbers
  if (idx >= 997 && (idx - 997) % 1020 == 0) {
    u64 k = (idx - 997) / 1020;
    for (auto& s : *scens())
      if (!s.weight && o.prop == s.prop && (s.variant & (instrumented() ? V_INST : V_FAST)) && (o.scenario.empty() || o.scenario == s.name) && !k--) { sp.sc = &s; break; }
  }
  sp.thorough = o.thorough;
  return sp;
}
static void* shmap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); raw_syscall(SYS_exit_group, 3); }
  return p;
}
static void worker(int w, const Opt& o, const std::vector<const Scenario*>& v, Shared* sh, u64* hashes, u64* shashes, double t0) {
  Result* res = (Result*)shmap(sizeof(Result));
  Agg& a = sh->agg[w];
  for (;;) {
    u64 i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
    if (i >= o.from + o.runs || wall() - t0 > o.wall || sh->harness) break;
    if (sh->bad && i + 1 > sh->bad) break;
    Spec sp = spec_of(o, v, i);
    exec_run(sp, res);
    hashes[i - o.from] = res->hash | 1;
    shashes[i - o.from] = res->nontrivial ? (res->schedhash ^ mix(res->hash, 7)) | 1 : 0;
    bool recheck = i % 61 == 5;
    if (recheck && res->state != 3) {
      Result first = *res;
      exec_run(sp, res);
      a.rechecks++;
      if (res->hash != first.hash || res->state != first.state || strcmp(res->cls, first.cls)) {
        res->state = 3;
        snprintf(res->msg, sizeof res->msg, "seed %llu is not deterministic", (unsigned long long)sp.seed);
      }
    }
    a.runs++;
    for (size_t k = 0; k < scens()->size() && k < 64; k++) if (&(*scens())[k] == sp.sc) a.scen_runs[k]++;
    a.nontrivial += res->nontrivial;
    a.steps += res->steps;
    a.simtime += res->simtime;
    a.accesses += res->accesses;
    a.shared += res->shared;
    for (int k = 0; k < FK_N; k++) { a.faults[k] += res->faults[k]; a.fruns[k] += !!res->faults[k]; }
    for (u32 k = 0; k < res->nprobe; k++) {
      u32 j = 0;
      while (j < a.nprobe && strcmp(a.probes[j].name, res->probes[k].name)) j++;
      if (j == a.nprobe) { if (j >= MAXPROBE * 2) continue; strcpy(a.probes[j].name, res->probes[k].name); a.nprobe++; }
      a.probes[j].n += res->probes[k].n;
      a.probes[j].runs++;
    }
    if (res->nontrivial && a.nsamples < 1 + (w < 2) && res->sample[0]) {
      snprintf(a.samples[a.nsamples++], 400, "run %llu (%s): %.350s", (unsigned long long)i, sp.sc->name, res->sample);
    }
    if (res->state == 2) {
      u64 b = sh->bad;
      while (!b || i + 1 < b) if (__atomic_compare_exchange_n(&sh->bad, &b, i + 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) break;
    } else if (res->state == 3) {
      if (!__atomic_exchange_n(&sh->harness, i + 1, __ATOMIC_SEQ_CST)) snprintf(sh->hmsg, sizeof sh->hmsg, "run %llu scenario %s: %s", (unsigned long long)i, sp.sc->name, res->msg);
      break;
    }
  }
  raw_syscall(SYS_exit_group, 0);
}

// ---------------------------------------------------------------- minimisation
static u64 nnz(const Spec& s) { u64 n = 0; for (auto& d : s.draws) n += d.size(); return n; }
static u64 sumv(const Spec& s) { u64 n = 0; for (auto& d : s.draws) for (auto& x : d) n += std::min<u64>(x.second, 1u << 20); return n; }
struct Min {
  Spec best;
  Result bres;
  std::string cls;
  Result* res;
  double deadline;
  u64 tries = 0, wins = 0;
  bool attempt(Spec& c) {
    if (wall() > deadline) return false;
    c.replay = c.record = true;
    tries++;
    exec_run(c, res);
    if (res->state != 2 || cls != res->cls) return false;
    Spec n = c;
    load_dump(n);
    if (nnz(n) > nnz(best) || (nnz(n) == nnz(best) && sumv(n) >= sumv(best))) return false;
    best = n;
    bres = *res;
    wins++;
    return true;
  }
  void pass() {
    for (int s = 0; s < NSTREAM; s++) {
      Spec c = best;
      c.draws[s].clear();
      attempt(c);
    }
    for (int s : {FLT, SCH, WL}) {
      size_t n = best.draws[s].size();
      for (size_t k = n; k >= 1 && wall() < deadline; k = k == 1 ? 0 : (k + 1) / 2) {
        for (size_t i = best.draws[s].size(); i > 0 && wall() < deadline;) {
          size_t lo = i > k ? i - k : 0;
          Spec c = best;
          if (lo >= c.draws[s].size()) { i = c.draws[s].size(); continue; }
          size_t hi = std::min(i, c.draws[s].size());
          c.draws[s].erase(c.draws[s].begin() + lo, c.draws[s].begin() + hi);
          attempt(c);
          i = std::min(lo, best.draws[s].size());
        }
        if (k == 1) break;
      }
    }
    for (int s : {WL, FLT})  // delete draws, shifting the later ones
      for (size_t i = best.draws[s].size(); i-- > 0 && wall() < deadline;) {
        if (i >= best.draws[s].size()) continue;
        for (u64 len : {8, 1}) {
          Spec c = best;
          u64 at = c.draws[s][i].first;
          std::vector<std::pair<u64, u64>> d;
          for (auto& x : c.draws[s]) {
            if (x.first < at) d.push_back(x);
            else if (x.first >= at + len) d.emplace_back(x.first - len, x.second);
          }
          c.draws[s] = d;
          if (attempt(c)) break;
        }
      }
    for (int s : {WL, FLT, SCH})
      for (size_t i = 0; i < best.draws[s].size() && wall() < deadline; i++)
        for (int t = 0; t < 40; t++) {
          if (i >= best.draws[s].size()) break;
          Spec c = best;
          u64 v = c.draws[s][i].second;
          if (v <= 1) break;
          c.draws[s][i].second = v / 2;
          if (attempt(c)) continue;
          c = best;
          c.draws[s][i].second = v - 1;
          if (!attempt(c)) break;
        }
  }
};

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else if (c < 127) o += c;
    else o += '?';
  }
  return o;
}
static void write_replay(const std::string& path, const Spec& sp, const Result& r, u64 orig, const Min& m) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); raw_syscall(SYS_exit_group, 3); }
  fprintf(f, "{\n\"property\": \"%s\",\n\"scenario\": \"%s\",\n\"variant\": \"%s\",\n\"seed\": %llu,\n\"thorough\": %d,\n\"class\": \"%s\",\n\"message\": \"%s\",\n\"hash\": \"%016llx\",\n",
          sp.sc->prop, sp.sc->name, instrumented() ? "inst" : "fast", (unsigned long long)sp.seed, sp.thorough, jesc(r.cls).c_str(), jesc(r.msg).c_str(), (unsigned long long)r.hash);
  fprintf(f, "\"nonzero_draws\": %llu,\n\"nonzero_draws_before_minimisation\": %llu,\n\"minimisation_runs\": %llu,\n\"steps\": %llu,\n\"case\": \"%s\",\n\"draws\": {",
          (unsigned long long)nnz(sp), (unsigned long long)orig, (unsigned long long)m.tries, (unsigned long long)r.steps, jesc(r.sample).c_str());
  const char* names[] = {"WL", "SCH", "FLT"};
  for (int s = 0; s < NSTREAM; s++) {
    fprintf(f, "%s\"%s\": [", s ? ",\n " : "", names[s]);
    for (size_t i = 0; i < sp.draws[s].size(); i++) fprintf(f, "%s[%llu,%llu]", i ? "," : "", (unsigned long long)sp.draws[s][i].first, (unsigned long long)sp.draws[s][i].second);
    fprintf(f, "]");
  }
  fprintf(f, "},\n\"trace\": [");
  std::string all(dump->data + dump->off, dump->tlen);
  std::vector<std::string> lines;
  size_t p = 0;
  while (p < all.size()) { size_t e = all.find('\n', p); lines.push_back(all.substr(p, e - p)); p = e + 1; }
  size_t from = lines.size() > 600 ? lines.size() - 600 : 0;
  bool first = true;
  for (size_t i = 0; i < lines.size(); i++) {
    if (i < from && lines[i].find("FAULT") == std::string::npos) continue;
    fprintf(f, "%s\n \"%s\"", first ? "" : ",", jesc(lines[i]).c_str());
    first = false;
  }
  fprintf(f, "\n]\n}\n");
  fclose(f);
}
static std::string slurp(const std::string& p) {
  FILE* f = fopen(p.c_str(), "r");
  if (!f) { perror(p.c_str()); raw_syscall(SYS_exit_group, 2); }
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static std::string jstr(const std::string& s, const char* key) {
  std::string k = std::string("\"") + key + "\": \"";
  size_t p = s.find(k);
  if (p == std::string::npos) return "";
  p += k.size();
  return s.substr(p, s.find('"', p) - p);
}
static u64 jnum(const std::string& s, const char* key) {
  std::string k = std::string("\"") + key + "\": ";
  size_t p = s.find(k);
  return p == std::string::npos ? 0 : strtoull(s.c_str() + p + k.size(), nullptr, 10);
}
static int do_replay(const std::string& path, bool verbose) {
  std::string s = slurp(path);
  Spec sp;
  std::string prop = jstr(s, "property"), name = jstr(s, "scenario");
  sp.sc = nullptr;
  for (auto& x : *scens()) if (prop == x.prop && name == x.name) sp.sc = &x;
  if (!sp.sc) { printf("unknown scenario %s/%s\n", prop.c_str(), name.c_str()); return 2; }
  sp.seed = jnum(s, "seed");
  sp.thorough = jnum(s, "thorough");
  sp.replay = sp.record = sp.trace = true;
  sp.ops = verbose;
  const char* names[] = {"WL", "SCH", "FLT"};
  for (int i = 0; i < NSTREAM; i++) {
    size_t p = s.find(std::string("\"") + names[i] + "\": [");
    if (p == std::string::npos) return 2;
    p += strlen(names[i]) + 5;
    while (s[p] == '[' || s[p] == ',') {
      if (s[p] == ',') { p++; continue; }
      char* e;
      u64 a = strtoull(s.c_str() + p + 1, &e, 10);
      u64 b = strtoull(e + 1, &e, 10);
      sp.draws[i].emplace_back(a, b);
      p = (e - s.c_str()) + 1;
    }
  }
  Result* res = (Result*)shmap(sizeof(Result));
  exec_run(sp, res);
  if (verbose) fwrite(dump->data + dump->off, 1, dump->tlen, stdout);
  char h[20];
  snprintf(h, sizeof h, "%016llx", (unsigned long long)res->hash);
  printf("replay of %s: %s %s: %s (hash %s)\n", path.c_str(), res->state == 2 ? "violation" : "no violation", res->cls, res->msg, h);
  if (res->state == 2 && jstr(s, "class") == res->cls && jstr(s, "hash") == h) return 1;
  printf("expected class %s hash %s\n", jstr(s, "class").c_str(), jstr(s, "hash").c_str());
  return res->state == 1 ? 0 : 2;
}

static int do_run(const Opt& o) {
  auto v = select(o);
  if (v.empty()) { printf("no scenario for %s in this build\n", o.prop.c_str()); return 2; }
  if (o.runs > MAXRUNS) return 2;
  Shared* sh = (Shared*)shmap(sizeof(Shared));
  u64* hashes = (u64*)shmap(o.runs * 8 + 8);
  u64* shashes = (u64*)shmap(o.runs * 8 + 8);
  sh->next = o.from;
  double t0 = wall();
  std::vector<pid_t> ps;
  for (int w = 0; w < o.workers; w++) {
    pid_t p = fork();
    if (p == 0) worker(w, o, v, sh, hashes, shashes, t0);
    ps.push_back(p);
  }
  for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double t1 = wall();
  int rc = 0;
  std::string viol, cls, msg;
  if (sh->harness && !sh->bad) {
    printf("HARNESS ERROR: %s\n", sh->hmsg);
    rc = 2;
  } else if (sh->bad) {
    u64 idx = sh->bad - 1;
    Spec sp = spec_of(o, v, idx);
    Result* res = (Result*)shmap(sizeof(Result));
    sp.record = true;
    exec_run(sp, res);
    Result first = *res;
    if (res->state != 2) { printf("HARNESS ERROR: run %llu did not fail again: %s\n", (unsigned long long)idx, res->msg); return 2; }
    Min m;
    m.best = sp;
    m.res = res;
    m.cls = res->cls;
    m.bres = *res;
    m.deadline = wall() + o.minwall;
    load_dump(m.best);
    m.best.replay = true;
    u64 orig = nnz(m.best);
    printf("run %llu (seed %llu, scenario %s): %s: %s\n", (unsigned long long)idx, (unsigned long long)sp.seed, sp.sc->name, res->cls, res->msg);
    {  // the recorded draws alone must reproduce the run
      Spec c = m.best;
      c.record = true;
      exec_run(c, res);
      if (res->state != 2 || m.cls != res->cls || res->hash != first.hash) { printf("HARNESS ERROR: the recorded draws do not reproduce run %llu (%d %s %s)\n", (unsigned long long)idx, res->state, res->cls, res->msg); return 2; }
    }
    for (int k = 0; k < 4; k++) {
      u64 before = m.wins;
      m.pass();
      if (m.wins == before || wall() > m.deadline) break;
    }
    Spec fin = m.best;
    fin.replay = fin.record = fin.trace = true;
    exec_run(fin, res);
    if (res->state != 2 || m.cls != res->cls) { printf("HARNESS ERROR: minimised run is not stable\n"); return 2; }
    std::string path = o.rdir + "/" + o.prop + "-" + (instrumented() ? "inst-" : "") + std::to_string(o.seed) + "-" + std::to_string(idx) + ".json";
    write_replay(path, fin, *res, orig, m);
    cls = res->cls;
    msg = res->msg;
    // fresh process
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      execl(exe, exe, "replay", path.c_str(), (char*)nullptr);
      raw_syscall(SYS_exit_group, 2);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { printf("HARNESS ERROR: %s does not reproduce in a fresh process\n", path.c_str()); return 2; }
    printf("minimised from %llu to %llu non-zero draws in %llu runs\n", (unsigned long long)orig, (unsigned long long)nnz(fin), (unsigned long long)m.tries);
    viol = path;
    rc = 1;
  }
  // aggregate
  Agg t{};
  std::map<std::string, std::pair<u64, u64>> probes;
  std::vector<std::string> samples;
  for (int w = 0; w < o.workers; w++) {
    Agg& a = sh->agg[w];
    t.runs += a.runs; t.nontrivial += a.nontrivial; t.steps += a.steps; t.simtime += a.simtime; t.rechecks += a.rechecks;
    t.accesses += a.accesses; t.shared += a.shared;
    for (int k = 0; k < FK_N; k++) { t.faults[k] += a.faults[k]; t.fruns[k] += a.fruns[k]; }
    for (u32 k = 0; k < a.nprobe; k++) { auto& q = probes[a.probes[k].name]; q.first += a.probes[k].n; q.second += a.probes[k].runs; }
    for (u32 k = 0; k < a.nsamples; k++) samples.push_back(a.samples[k]);
    for (int k = 0; k < 64; k++) t.scen_runs[k] += a.scen_runs[k];
  }
  std::unordered_set<u64> dh, ds;
  u64 allhash = 0;
  for (u64 i = 0; i < o.runs; i++) { if (hashes[i]) { dh.insert(hashes[i]); allhash = mix(allhash, hashes[i]); } if (shashes[i]) ds.insert(shashes[i]); }
  double dur = t1 - t0;
  FILE* f = o.json.empty() ? nullptr : fopen(o.json.c_str(), "w");
  if (f) {
    fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"distinct_histories\": %zu, \"distinct_nontrivial_interleavings\": %zu, \"steps\": %llu, \"simulated_ns\": %llu, \"wall_s\": %.3f, \"rechecks\": %llu, \"memory_accesses\": %llu, \"shared_accesses\": %llu, \"allhash\": \"%016llx\",\n",
            (unsigned long long)t.runs, (unsigned long long)t.nontrivial, dh.size(), ds.size(), (unsigned long long)t.steps, (unsigned long long)t.simtime, dur, (unsigned long long)t.rechecks, (unsigned long long)t.accesses, (unsigned long long)t.shared, (unsigned long long)allhash);
    fprintf(f, "\"faults\": {");
    bool c = false;
    for (int k = 0; k < FK_N; k++) { if (t.faults[k]) { fprintf(f, "%s\"%s\": [%llu, %llu]", c ? ", " : "", fault_names[k], (unsigned long long)t.faults[k], (unsigned long long)t.fruns[k]); c = true; } }
    fprintf(f, "},\n\"probes\": {");
    c = false;
    for (auto& p : probes) { fprintf(f, "%s\"%s\": [%llu, %llu]", c ? ", " : "", jesc(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); c = true; }
    fprintf(f, "},\n\"scenarios\": {");
    c = false;
    for (size_t k = 0; k < scens()->size() && k < 64; k++) if (t.scen_runs[k]) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", (*scens())[k].name, (unsigned long long)t.scen_runs[k]); c = true; }
    fprintf(f, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n\"violation\": \"%s\", \"class\": \"%s\", \"message\": \"%s\", \"rc\": %d}\n", jesc(viol).c_str(), jesc(cls).c_str(), jesc(msg).c_str(), rc);
    fclose(f);
  }
  printf("%s %s: %llu runs (%llu non-trivial, %zu distinct), %.0f runs/s, %llu steps, %.1f simulated s, %llu rechecked, rc %d, all-hash %016llx\n", o.prop.c_str(), instrumented() ? "inst" : "fast",
         (unsigned long long)t.runs, (unsigned long long)t.nontrivial, ds.size(), t.runs / (dur > 0 ? dur : 1), (unsigned long long)t.steps, t.simtime / 1e9, (unsigned long long)t.rechecks, rc, (unsigned long long)allhash);
  return rc;
}

int driver_main(int argc, char** argv) {
  __libc_single_threaded = 0;
  core_init();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string mode = argc > 1 ? argv[1] : "";
  Opt o;
  std::vector<std::string> pos;
  bool verbose = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") o.prop = val();
    else if (a == "--scenario") o.scenario = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs") o.runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") o.from = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = std::max(1, std::min(64, atoi(val().c_str())));
    else if (a == "--wall") o.wall = atof(val().c_str());
    else if (a == "--minwall") o.minwall = atof(val().c_str());
    else if (a == "--tier") o.thorough = val() == "thorough";
    else if (a == "--json") o.json = val();
    else if (a == "--replay-dir") o.rdir = val();
    else if (a == "-v") verbose = true;
    else pos.push_back(a);
  }
  dump = (Dump*)shmap(kDump);
  if (mode == "list") {
    for (auto& s : *scens()) printf("%s %s %d %d\n", s.prop, s.name, s.weight, s.variant);
    return 0;
  }
  // The warm-up runs code under test outside a run: try it in a child first. If
  // it fails there it is skipped, and the runs meet the failure themselves.
  if (!warm()->empty()) {
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      for (auto f : *warm()) f();
      raw_syscall(SYS_exit_group, 0);
    }
    int st = 1;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st == 0) for (auto f : *warm()) f();
    else fprintf(stderr, "warm-up failed (status %x), skipped\n", st);
  }
  if (mode == "run") return do_run(o);
  if (mode == "replay" && pos.size() == 1) return do_replay(pos[0], verbose);
  if (mode == "one") {  // one run of the search, with its trace
    auto v = select(o);
    Spec sp = spec_of(o, v, o.from);
    sp.record = sp.trace = true;
    sp.ops = verbose;
    Result* res = (Result*)shmap(sizeof(Result));
    exec_run(sp, res);
    fwrite(dump->data + dump->off, 1, dump->tlen, stdout);
    printf("%s state %d %s %s hash %016llx steps %llu sim %.6fs sample %s\n", sp.sc->name, res->state, res->cls, res->msg, (unsigned long long)res->hash, (unsigned long long)res->steps, res->simtime / 1e9, res->sample);
    return 0;
  }
  printf("usage: simrun run|replay|one|list ...\n");
  return 2;
}
}  // namespace sim
