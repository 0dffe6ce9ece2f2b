// C17: the experiment programs, one simulated process per party.
#include "util.h"
using namespace sim;
using namespace sc;
extern "C" int exp_main(int argc, char** argv);  // main() of the program

namespace {
#if defined(EXP_MULT)
const char* const kName = "exp_mult";
const char* const kSteps[] = {"prepare", "SendStep_send", "SendStep_receive", "OutputStep_receive", "OutputStep_add_constant"};
#elif defined(EXP_INPUT)
const char* const kName = "exp_input";
const char* const kSteps[] = {"setup", "Input_send", "Input_recv_add_constant"};
#else
const char* const kName = "exp_check";
const char* const kSteps[] = {"prepare", "SendStep_send", "SendStep_receive", "OutputStep_receive", "OutputStep_add_constant", "RandCoeff", "LinearComb", "PrepareMsgs", "ReconstructMsgs"};
#endif
size_t share_bytes(size_t n) {
  size_t d = (n - 1) / 3, c = 1;
  for (size_t i = 1; i <= d; i++) c = c * (n - i) / i;  // C(n-1, d)
  return 8 * c;
}
struct Parsed { std::vector<i64> sent, got; bool sum = false; std::map<std::string, i64> t; };
Parsed parse(const std::string& out, size_t n, size_t me) {
  Parsed s;
  s.sent.assign(n, 0);
  s.got.assign(n, 0);
  std::istringstream in(out);
  std::string l;
  while (std::getline(in, l)) {
    unsigned long a;
    unsigned long long x, y;
    if (l.rfind("communication summary for", 0) == 0) {
      SIM_CHECK(!s.sum, "summary", "party %zu prints two summaries", me);
      s.sum = true;
      continue;
    }
    if (!s.sum) {
      size_t c = l.find(": ");
      long long v;
      if (c != std::string::npos && l.size() > 3 && l.substr(l.size() - 3) == " us" && sscanf(l.c_str() + c + 2, "%lld", &v) == 1) s.t[l.substr(0, c)] += v;
      continue;
    }
    if (sscanf(l.c_str(), "sent/received to/from %lu: %llu/%llu bytes", &a, &x, &y) == 3 && a < n) { s.sent[a] += x; s.got[a] += y; }
    else if (sscanf(l.c_str(), "sent to %lu: %llu bytes", &a, &x) == 2 && a < n) s.sent[a] += x;
    else if (sscanf(l.c_str(), "received from %lu: %llu bytes", &a, &x) == 2 && a < n) s.got[a] += x;
    else SIM_CHECK(l.find("bytes") == std::string::npos, "summary", "party %zu: cannot read %s", me, l.c_str());
  }
  return s;
}
void c17() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  static const size_t ns[] = {4, 5, 7, 6, 4, 4, 8, 5, 10};
  size_t n = ns[wl(thorough() ? 9 : 8)];
#if defined(EXP_CHECK)
  if (coin(WL, 0.01)) n = 8 + wl(2);
#else
  if (coin(WL, 0.02)) n = 8 + wl(5);
#endif
  size_t big = n <= 5 ? 600 : n <= 7 ? 60 : 12, amount = 0;
  switch (wl(5)) {
    case 0: amount = 1; break;
    case 1: amount = 0; break;
    case 2: amount = wl(10); break;
    default: amount = wl(big); break;
  }
#if !defined(EXP_CHECK)
  if (n <= 5 && coin(WL, thorough() ? 0.004 : 0.002)) amount = coin(WL, 0.5) ? 65000 + wl(3000) : 2000 + wl(30000);
#else
  if (n <= 5 && coin(WL, 0.002)) amount = 1000 + wl(4000);
#endif
  size_t d = (n - 1) / 3, total = amount * 8 * n * 2 + n * n * share_bytes(n) + 4000;
  while (total / cfg.cap > 3000) cfg.cap *= 8;
  std::vector<int> pid(n);
  std::vector<u64> start(n);
  bool clk = cfg.p_clock > 0;
  for (size_t i = 0; i < n; i++) {
    start[i] = start_delay();
    pid[i] = spawn((int)i, 0, start[i], [n, i, amount] {
      std::string a[4];
      char* argv[5];
      {
        Quiet q;
        a[0] = std::string(kName) + ".x";
        a[1] = std::to_string(n);
        a[2] = std::to_string(i);
        a[3] = std::to_string(amount);
        for (int k = 0; k < 4; k++) argv[k] = &a[k][0];
        argv[4] = nullptr;
      }
      int r = exp_main(4, argv);
      if (r) exit(r);
    });
  }
  expect_done(run(), kName);
  std::vector<Parsed> s;
  for (size_t i = 0; i < n; i++) {
    Exit e = proc_exit(pid[i]);
    SIM_CHECK(e == Exit::Ok && proc_exit_code(pid[i]) == 0, "program-failed", "%s %zu %zu %zu ended with %s %d: %s", kName, n, i, amount, exit_name(e), proc_exit_code(pid[i]), proc_error(pid[i]).c_str());
    s.push_back(parse(proc_stdout(pid[i]), n, i));
    SIM_CHECK(s[i].sum, "summary", "%s: party %zu prints no communication summary", kName, i);
    for (auto* k : kSteps) {
      auto it = s[i].t.find(k);
      SIM_CHECK(it != s[i].t.end(), "timing", "%s: party %zu prints no time for %s", kName, i, k);
      if (!clk) SIM_CHECK(it->second >= 0 && (u64)it->second * 1000 <= proc_end_time(pid[i]) - start[i], "timing", "%s: party %zu prints %lld us for %s in a life of %llu us", kName, i, (long long)it->second, k, (unsigned long long)((proc_end_time(pid[i]) - start[i]) / 1000));
    }
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      i64 a = s[i].sent[j], b = s[j].got[i];
      SIM_CHECK(a == b, "summary-mismatch", "%s: party %zu reports %lld bytes sent to %zu, which reports %lld received", kName, i, (long long)a, j, (long long)b);
      if (i != j) SIM_CHECK((i64)wire(pid[i], pid[j]).size() == a, "wire", "%s: party %zu reports %lld bytes sent to %zu, on the wire were %zu", kName, i, (long long)a, j, wire(pid[i], pid[j]).size());
      i64 want = 8 * (i64)amount * ((i < 2 * d + 1 && j == 0) + (i == 0 && j < n - d));
#if defined(EXP_INPUT)
      want = (i64)share_bytes(n) + (i == 0 ? 8 * (i64)amount : 0);
#endif
#if defined(EXP_CHECK)
      SIM_CHECK(a >= want, "volume", "%s: party %zu sent %lld bytes to %zu, the multiplications alone need %lld", kName, i, (long long)a, j, (long long)want);
#else
      SIM_CHECK(a == want, "volume", "%s: party %zu sent %lld bytes to %zu, %zu operations need %lld", kName, i, (long long)a, j, amount, (long long)want);
#endif
    }
  nontrivial();
  probe("operations", amount);
  char b[160];
  snprintf(b, sizeof b, "%s, %zu parties, %zu operations, policy %d", kName, n, amount, cfg.policy);
  sample(b);
}
Reg r17("C17",
#if defined(EXP_MULT)
        "exp_mult",
#elif defined(EXP_INPUT)
        "exp_input",
#else
        "exp_check",
#endif
        c17, 1, V_FAST);
}  // namespace
