#pragma once
#include <string>
#include <utility>
#include <vector>
#include "core.h"
namespace sim {
enum { MAXPROBE = 48 };
struct Result {  // shared memory slot written by one run
  volatile u32 state;  // 0 unset, 1 ok, 2 violation, 3 harness error
  u32 nontrivial;
  char cls[48];
  char msg[700];
  u64 hash, schedhash, steps, simtime, accesses, shared;
  u64 faults[FK_N];
  u32 nprobe;
  struct { char name[44]; u64 n; } probes[MAXPROBE];
  char sample[400];
};
struct StreamState {
  u64 n = 0;
  size_t pos = 0;
  std::vector<std::pair<u64, u64>> src, rec;
};
struct Run {  // state of the run executing in this process
  Result* res = nullptr;
  bool replay = false, record = false, tracing = false, trace_ops = false;
  StreamState st[NSTREAM];
  std::vector<std::string> lines;
};
extern Run* R;
void draws_init(u64 seed, bool thorough);
void core_init();
[[noreturn]] void run_finish();
}  // namespace sim
