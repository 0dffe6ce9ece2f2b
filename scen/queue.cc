// C06: the queue between threads. Histories of concurrent operations are
// checked for linearizability against a sequential deque.
#include <string.h>
#include <algorithm>
#include <unordered_set>
#include "../sim/core.h"
#include "frn/lib/net/shared_deque.h"
#include <memory>
#include <thread>
using namespace sim;

namespace {
using Item = std::vector<unsigned char>;
using Queue = frn::lib::net::SharedDeque<Item>;
struct Ev {
  enum K { PUSH, FRONT, POP, SIZE } k;
  u64 v = 0;           // pushed item, item seen at the front, or size
  u64 inv = 0, ret = ~0ull;
  bool done = false;
  int th = 0;
};
const char* kname[] = {"PushBack", "Front", "PopFront", "Size"};
Item make(u64 id, size_t pad) {
  Item b(8 + pad, (unsigned char)id);
  memcpy(b.data(), &id, 8);
  return b;
}
u64 id_of(const Item& b) {
  u64 v = ~0ull;
  if (b.size() >= 8) memcpy(&v, b.data(), 8);
  return v;
}
struct Rec {  // one thread's operations on the queue, recorded
  std::vector<Ev> ev;
  Queue* q;
  int th;
  Ev& begin(Ev::K k, u64 v) { Quiet z; ev.emplace_back(); Ev& e = ev.back(); e.k = k; e.v = v; e.th = th; e.inv = stamp(); return e; }
  void end(Ev& e) { Quiet z; e.ret = stamp(); e.done = true; }
  void push(u64 id, size_t pad, bool mv) {
    Item b = make(id, pad);
    Ev& e = begin(Ev::PUSH, id);
    if (mv) q->PushBack(std::move(b)); else q->PushBack(b);
    end(e);
  }
  u64 front(bool look) {
    Ev& e = begin(Ev::FRONT, 0);
    auto&& f = q->Front();
    u64 r = 0;
    if (look) {
      Item c = f;
      r = id_of(c);
      Quiet z;
      for (size_t i = 8; i < c.size(); i++) SIM_CHECK(c[i] == (unsigned char)r, "torn-item", "an item was altered inside the queue");
    }
    e.v = look ? r : ~0ull;
    end(e);
    return r;
  }
  void pop() { Ev& e = begin(Ev::POP, 0); q->PopFront(); end(e); }
  void size() { Ev& e = begin(Ev::SIZE, 0); u64 s = q->Size(); e.v = s; end(e); }
};
std::string show(const std::vector<Ev>& h) {
  std::string s;
  for (auto& e : h) {
    char b[96];
    snprintf(b, sizeof b, "%s t%d %s(%lld) [%lld,%lld]", s.empty() ? "" : ";", e.th, kname[e.k], e.v == ~0ull ? -1ll : (long long)e.v, (long long)e.inv, e.done ? (long long)e.ret : -1ll);
    s += b;
    if (s.size() > 560) break;
  }
  return s;
}
// Wing-Gong search with memoisation; operations that never returned may have
// taken effect or not. ok=false: search budget exhausted.
struct Lin {
  std::vector<Ev> h;
  std::unordered_set<std::string> seen;
  u64 budget = 300000;
  std::vector<u64> dq;
  size_t head = 0;
  bool rec(u64 mask) {
    bool all = true;
    u64 minret = ~0ull;
    for (size_t i = 0; i < h.size(); i++)
      if (!(mask >> i & 1)) { if (h[i].done) all = false; minret = std::min(minret, h[i].ret); }
    if (all) return true;
    if (!budget) return true;
    budget--;
    std::string key((char*)&mask, 8);
    key.append((char*)(dq.data() + head), (dq.size() - head) * 8);
    if (!seen.insert(key).second) return false;
    for (size_t i = 0; i < h.size(); i++) {
      if (mask >> i & 1 || h[i].inv > minret) continue;
      const Ev& e = h[i];
      bool empty = head == dq.size();
      u64 m = mask | 1ull << i;
      switch (e.k) {
        case Ev::PUSH:
          dq.push_back(e.v);
          if (rec(m)) return true;
          dq.pop_back();
          break;
        case Ev::FRONT:
          if (!empty && (e.v == ~0ull || e.v == dq[head] || !e.done) && rec(m)) return true;
          break;
        case Ev::POP:
          if (!empty) { head++; if (rec(m)) return true; head--; }
          break;
        case Ev::SIZE:
          if ((!e.done || e.v == dq.size() - head) && rec(m)) return true;
          break;
      }
    }
    return false;
  }
};
void linearizable(std::vector<Ev> h) {
  Quiet z;
  if (h.size() > 62) return;
  std::sort(h.begin(), h.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
  Lin l;
  l.h = h;
  if (!l.rec(0)) fail("not-linearizable", "no sequential order of these operations explains them: %s", show(h).c_str());
  if (l.budget == 0) probe("linearizability search gave up"); else probe("histories decided for linearizability");
}

// ------------------------------------------------------- one consuming thread
void consumer() {
  draw_cfg(F_SCHED | F_STALL | F_SPUR | F_MEM | F_CLOCK);
  bool small = coin(WL, 0.7);
  size_t np = 1 + wl(4), per = small ? 1 + wl(3) : 1 + wl(40);
  size_t nq = wl(3);           // threads that ask for the size
  size_t nfront = wl(2);       // further readers of the front before any pop
  std::vector<std::vector<int>> how(np);
  for (auto& v : how) for (size_t i = 0; i < per; i++) v.push_back((int)wl(2) | (int)wl(4) << 1);
  std::vector<int> act;        // consumer script: extra fronts per item
  for (size_t i = 0; i < np * per; i++) act.push_back((int)wl(4));
  size_t leave = wl(3);        // items left in the queue
  std::vector<size_t> sz(nq);
  for (auto& x : sz) x = 1 + wl(small ? 3 : 20);
  auto recs = std::make_shared<std::vector<Rec>>(np + nq + nfront + 2);
  std::vector<u64> order;
  int pid = spawn(0, 0, 0, [&] {
    auto q = std::make_unique<Queue>();
    for (size_t i = 0; i < recs->size(); i++) { (*recs)[i].q = q.get(); (*recs)[i].th = (int)i; }
    std::vector<std::thread> ts;
    for (size_t p = 0; p < np; p++)
      ts.emplace_back([&, p] { for (size_t i = 0; i < per; i++) (*recs)[p].push(1 + p * 1000 + i, (size_t)(how[p][i] >> 1) * 5, how[p][i] & 1); });
    for (size_t s = 0; s < nq; s++) ts.emplace_back([&, s] { for (size_t i = 0; i < sz[s]; i++) (*recs)[np + s].size(); });
    std::vector<std::thread> fs;
    for (size_t s = 0; s < nfront; s++) fs.emplace_back([&, s] { (*recs)[np + nq + s].front(true); });
    Rec& c = (*recs)[np + nq + nfront];
    for (auto& t : fs) t.join();  // a reference to the front is only used while nobody pops
    size_t total = np * per;
    for (size_t i = 0; i + leave < total; i++) {
      u64 v = 0;
      for (int k = 0; k < (act[i] == 3 ? 0 : 1 + act[i]); k++) {
        u64 w = c.front(true);
        SIM_CHECK(!k || v == w, "front-changed", "the front changed from %llu to %llu without a pop", (unsigned long long)v, (unsigned long long)w);
        v = w;
      }
      c.pop();
      Quiet z;
      order.push_back(v);
    }
    for (auto& t : ts) t.join();
    Rec& d = (*recs)[np + nq + nfront + 1];
    d.size();
    SIM_CHECK(d.ev[0].v == std::min(leave, total), "lost-item", "%zu items were pushed and %zu popped, %llu are left", total, total - std::min(leave, total), (unsigned long long)d.ev[0].v);
    for (size_t i = 0; i < std::min(leave, total); i++) { u64 v = d.front(true); d.pop(); Quiet z; order.push_back(v); }
  });
  expect_done(run(), "queue");
  SIM_CHECK(proc_exit(pid) == Exit::Ok, "party-failed", "ended with %s: %s", exit_name(proc_exit(pid)), proc_error(pid).c_str());
  std::vector<Ev> h;
  for (auto& r : *recs) h.insert(h.end(), r.ev.begin(), r.ev.end());
  // structural checks, for histories of any length
  std::vector<Ev*> push(np * 1000 + 2, nullptr);
  for (auto& e : h) if (e.k == Ev::PUSH) push[e.v] = &e;
  std::vector<size_t> next(np, 0);
  Ev* maxinv = nullptr;
  for (size_t i = 0; i < order.size(); i++) {
    u64 v = order[i];
    if (!v) continue;          // popped without looking
    SIM_CHECK(v < push.size() && push[v], "made-up-item", "item %llu came out and was never pushed", (unsigned long long)v);
    size_t p = (v - 1) / 1000, k = (v - 1) % 1000;
    SIM_CHECK(k >= next[p], "order", "item %zu of pusher %zu came out after item %zu", k, p, next[p]);
    next[p] = k + 1;
    SIM_CHECK(!maxinv || push[v]->ret > maxinv->inv, "order", "item %llu came out after one whose push began after this one's push had returned", (unsigned long long)v);
    if (!maxinv || push[v]->inv > maxinv->inv) maxinv = push[v];
  }
  for (auto& e : h) {
    if (e.k == Ev::FRONT) SIM_CHECK(e.v < push.size() && push[e.v] && push[e.v]->inv < e.ret, "made-up-item", "the front %llu was not yet pushed", (unsigned long long)e.v);
    if (e.k != Ev::SIZE) continue;
    i64 lo = 0, hi = 0;
    for (auto& o : h) {
      if (o.k == Ev::PUSH) { lo += o.ret < e.inv; hi += o.inv < e.ret; }
      if (o.k == Ev::POP) { lo -= o.inv < e.ret; hi -= o.ret < e.inv; }
    }
    SIM_CHECK((i64)e.v >= lo && (i64)e.v <= hi, "size", "Size returned %llu, possible were %lld to %lld", (unsigned long long)e.v, (long long)lo, (long long)hi);
  }
  linearizable(h);
  nontrivial();
  char b[160];
  snprintf(b, sizeof b, "consumer: %zu pushers x %zu items, %zu size threads, %zu extra readers, %zu operations", np, per, nq, nfront, h.size());
  sample(b);
}
Reg q1("C06", "consumer", consumer, 30, V_BOTH);

// ------------------------------------------------------- many items waiting
// The queue grows to thousands of items; the front stays what it is while it is in use.
void backlog() {
  draw_cfg(F_SCHED | F_STALL | F_SPUR | F_MEM | F_CLOCK);
  size_t big = instrumented() ? 3 : 7;
  size_t fill = coin(WL, 0.3) ? wl(40) : ((size_t)64 << wl(big + 1)) - 2 + wl(5);
  size_t np = 1 + wl(3), per = 1 + wl(instrumented() ? 40 : 400), rounds = 1 + wl(3);
  std::vector<size_t> take;
  for (size_t r = 0; r < rounds; r++) take.push_back(coin(WL, 0.3) ? ~0ull : coin(WL, 0.5) ? wl(fill + 1) : wl(10));
  size_t look = 1 + wl(7);
  u64 front_moved = 0, taken = 0;
  int pid = spawn(0, 0, 0, [&] {
    auto q = std::make_unique<Queue>();
    std::vector<size_t> sent(np, 0), next(np, 0);
    size_t in = 0, out = 0;
    auto expect = [&](u64 v, const char* op) {
      size_t p = v >> 32, k = v & 0xffffffff;
      if (p >= np || k != next[p]) fail("order", "%s: item %llu of pusher %llu is at the front, the next one of it is %llu (%zu items were taken out)", op, (unsigned long long)k, (unsigned long long)p, (unsigned long long)(p < np ? next[p] : 0), out);
    };
    auto push = [&](size_t p) { u64 id = (u64)p << 32 | sent[p]++; if (id & 1) q->PushBack(make(id, id % 3 * 5)); else { Item b = make(id, id % 3 * 5); q->PushBack(b); } };
    for (size_t i = 0; i < fill; i++) push(0), in++;
    for (size_t r = 0; r < rounds; r++) {
      std::vector<std::thread> ts;
      for (size_t p = 0; p < np; p++) ts.emplace_back([&, p] { for (size_t i = 0; i < per; i++) push(p); });
      in += np * per;
      size_t n = std::min(take[r], in - out);
      for (size_t i = 0; i < n; i++) {
        auto&& f = q->Front();
        u64 a = id_of(f);
        expect(a, "Front");
        if (i % look == 0) {
          yield_point();
          SIM_CHECK(id_of(f) == a, "front-changed", "the front item changed from %llx to %llx while it was in use and nobody removed it", (unsigned long long)a, (unsigned long long)id_of(f));
          front_moved++;
        }
        q->PopFront();
        next[a >> 32]++;
        out++;
      }
      for (auto& t : ts) t.join();
      SIM_CHECK(q->Size() == in - out, "size", "%zu items were pushed and %zu removed, Size returns %zu", in, out, q->Size());
    }
    while (out < in) { u64 v = id_of(q->Front()); expect(v, "Front"); q->PopFront(); next[v >> 32]++; out++; }
    SIM_CHECK(q->Size() == 0, "size", "everything was removed, Size returns %zu", q->Size());
    taken = out;
  });
  expect_done(run(), "queue");
  SIM_CHECK(proc_exit(pid) == Exit::Ok, "party-failed", "ended with %s: %s", exit_name(proc_exit(pid)), proc_error(pid).c_str());
  nontrivial();
  if (fill > 1000) probe("more than a thousand items waiting");
  char b[160];
  snprintf(b, sizeof b, "backlog: %zu items first, then %zu pushers x %zu items in %zu rounds, %llu taken out", fill, np, per, rounds, (unsigned long long)taken);
  sample(b);
}

// ------------------------------------------------------- many waiting threads
void waiters() {
  draw_cfg(F_SCHED | F_STALL | F_SPUR | F_MEM | F_CLOCK);
  size_t np = 1 + wl(3), per = 1 + wl(coin(WL, 0.8) ? 3 : 12);
  size_t npop = 1 + wl(4), nfront = wl(4), nq = wl(2);
  size_t pushes = np * per;
  std::vector<size_t> pops(npop), fronts(nfront);
  for (auto& x : pops) x = 1 + wl(3);
  for (auto& x : fronts) x = 1 + wl(2);
  std::vector<u64> rest(npop + nfront + np);
  for (auto& x : rest) x = wl(3);
  auto recs = std::make_shared<std::vector<Rec>>(np + npop + nfront + nq);
  auto* q = new Queue;
  for (size_t i = 0; i < recs->size(); i++) { (*recs)[i].q = q; (*recs)[i].th = (int)i; (*recs)[i].ev.reserve(64); }
  auto pause = [](u64 k) { if (k) sleep_ns(k * 2000); };
  int pid = spawn(0, 0, 0, [&] {
    std::vector<std::thread> ts;
    for (size_t p = 0; p < np; p++)
      ts.emplace_back([&, p] { for (size_t i = 0; i < per; i++) { pause(rest[p]); (*recs)[p].push(1 + p * 1000 + i, i % 3, i & 1); } });
    for (size_t p = 0; p < npop; p++)
      ts.emplace_back([&, p] { pause(rest[np + p]); for (size_t i = 0; i < pops[p]; i++) (*recs)[np + p].pop(); });
    for (size_t p = 0; p < nfront; p++)
      ts.emplace_back([&, p] { pause(rest[np + npop + p]); for (size_t i = 0; i < fronts[p]; i++) (*recs)[np + npop + p].front(false); });
    for (size_t p = 0; p < nq; p++) ts.emplace_back([&, p] { for (int i = 0; i < 3; i++) (*recs)[np + npop + nfront + p].size(); });
    for (auto& t : ts) t.join();
  });
  auto o = run();
  std::vector<Ev> h;
  size_t popped = 0, pushed = 0, waiting = 0;
  for (auto& r : *recs) {
    h.insert(h.end(), r.ev.begin(), r.ev.end());
    for (auto& e : r.ev) { popped += e.k == Ev::POP && e.done; pushed += e.k == Ev::PUSH && e.done; waiting += !e.done; }
  }
  if (!o.done) {
    // (threads that look again from time to time never come to rest: the bound ends the run)
    SIM_CHECK(pushed == pushes, "hang", "a push never returns: %s", o.who.c_str());
    // waiting is right only when nothing is left to wait for
    SIM_CHECK(pushed <= popped, "lost-wakeup", "%zu items are available and %zu threads keep waiting for one: %s", pushed - popped, waiting, show(h).c_str());
    probe("threads rightly left waiting");
  } else {
    SIM_CHECK(proc_exit(pid) == Exit::Ok, "party-failed", "ended with %s: %s", exit_name(proc_exit(pid)), proc_error(pid).c_str());
  }
  SIM_CHECK(popped <= pushed, "made-up-item", "%zu items were popped and %zu pushed", popped, pushed);
  linearizable(h);
  if (o.done) {
    // drain what is left from the outside: the tail of every pusher, in order
    spawn(0, 0, 0, [&] {
      size_t left = q->Size();
      SIM_CHECK(left == pushed - popped, "lost-item", "%zu pushed, %zu popped, %zu left", pushed, popped, left);
      std::vector<i64> last(np, -1);
      std::vector<size_t> cnt(np, 0);
      for (size_t i = 0; i < left; i++) {
        u64 v = id_of(q->Front());
        q->PopFront();
        Quiet z;
        size_t p = (v - 1) / 1000;
        i64 k = (i64)((v - 1) % 1000);
        SIM_CHECK(v && p < np && k < (i64)per, "made-up-item", "item %llu was never pushed", (unsigned long long)v);
        SIM_CHECK(last[p] < 0 || k == last[p] + 1, "order", "item %lld of pusher %zu follows item %lld", (long long)k, p, (long long)last[p]);
        last[p] = k;
        cnt[p]++;
      }
      for (size_t p = 0; p < np; p++) SIM_CHECK(!cnt[p] || last[p] == (i64)per - 1, "lost-item", "the last item of pusher %zu is gone", p);
    });
    expect_done(run(), "drain");
  }
  nontrivial();
  char b[160];
  snprintf(b, sizeof b, "waiters: %zu pushers x %zu, %zu popping threads, %zu front readers", np, per, npop, nfront);
  sample(b);
}
Reg q3("C06", "backlog", backlog, 1, V_BOTH);
Reg q2("C06", "waiters", waiters, 20, V_BOTH);
}  // namespace
