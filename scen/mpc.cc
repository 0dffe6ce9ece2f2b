// Protocol scenarios: C07-C16.
#include "mpc.h"

#include <signal.h>
#include <thread>
using namespace mpc;

namespace {
void warm() {
  size_t top = instrumented() ? 7 : 12;
  for (size_t n = 4; n <= top; n++) {
    for (size_t d = 1; d <= (n - 1) / 2; d++) rep(n, d), layout(n, d);
    for (size_t d = 1; d <= dmax(n); d++) {
      layout(n, 2 * d);
      for (size_t i = 0; i < n; i++) man(i, n, d);
    }
  }
}
struct W { W() { at_warmup(warm); } } w0;

size_t batches(Program& p, size_t b, size_t big) {
  size_t m = p.mults;
  for (size_t i = 0; i < b; i++) {
    size_t k = draw_count(big);
    if (p.bulk && i + 1 >= b - wl(2)) k = p.bulk, p.bulk = 0;
    add_mul(p, k);
  }
  return p.mults - m;
}

// Now and then an earlier session of another size in the same process: nothing that it
// leaves behind in the program may matter to the one that follows.
void prelude(const Program& next) {
  if (!coin(WL, 0.06)) return;
  Cfg drawn = cfg;
  cfg = Cfg{};
  cfg.cap = 1 << 16;
  auto q = std::make_shared<Program>();
  draw_size(*q, true);
  if (coin(WL, 0.5)) q->n = next.n, q->d = dmax(q->n);
  if (q->n == next.n && q->d == next.d && q->d > 1) q->d--;
  draw_keys(*q);
  bool full = q->d == dmax(q->n);
  if (full && coin(WL, 0.5)) add_in(*q, 3); else add_pre(*q, 2);
  if (coin(WL, 0.8)) add_mul(*q, 2);
  if (full && q->mults && coin(WL, 0.3)) add_check(*q);
  add_open(*q, 1, true);
  bound(*q);
  World w(*q);
  w.start(false, false);
  w.expect_ok("earlier session");
  w.check_opened("earlier session");
  w.check_pool("earlier session");
  probe("an earlier session of another size in the process");
  reset_world();
  cfg = drawn;
}

// ================================================================== C07
void c07() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  prelude(p);
  draw_keys(p);
  add_pre(p, 1 + wl(6));
  draw_bulk(p);
  p.objs = coin(WL, 0.1);
  batches(p, 1 + wl(4), p.n <= 5 && !instrumented() ? 400 : 20);
  if (coin(WL, 0.3)) { add_lin(p, 1 + wl(4)); batches(p, 1 + wl(2), 8); }
  bound(p);
  World w(p);
  w.start(false, true);
  w.expect_ok("multiplication");
  w.check_pool("multiplication");
  if (p.mults) nontrivial();
  probe("multiplications", p.mults);
  sample(describe(p));
}
Reg r07("C07", "mult", c07, 1, V_BOTH);

// ================================================================== C08
void c08() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, false);
  prelude(p);
  draw_keys(p);
  size_t r = 1 + (coin(WL, 0.5) ? wl(3) : 0);
  draw_bulk(p);
  p.objs = r > 1 && coin(WL, 0.3);
  for (size_t i = 0; i < r; i++) add_in(p, p.n <= 5 && !instrumented() ? 200 : 12);
  bound(p);
  World w(p);
  w.start(false, true);
  w.expect_ok("input");
  w.check_pool("input");
  if (p.inputs) nontrivial();
  probe("inputs", p.inputs);
  if (r > 1) probe("repeated input phases");
  sample(describe(p));
}
Reg r08("C08", "input", c08, 1, V_BOTH);

// ================================================================== C09
void circuit(Program& p, size_t layers, size_t width, bool checks) {
  if (p.d == dmax(p.n) && !coin(WL, 0.2)) add_in(p, 6); else add_pre(p, 1 + wl(6));
  for (size_t i = 0; i < layers; i++) {
    if (coin(WL, 0.15) && p.d == dmax(p.n)) add_in(p, 3);
    if (wl(4)) add_lin(p, 1 + wl(6));
    if (wl(4)) add_mul(p, 1 + wl(width));
    if (coin(WL, 0.15)) add_open(p, 1 + wl(3), false);
  }
  if (checks && p.d == dmax(p.n) && coin(WL, 0.3)) add_check(p);
  add_open(p, 1 + wl(4), true);
}
void c09() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  prelude(p);
  draw_keys(p);
  p.objs = coin(WL, 0.2);
  circuit(p, 1 + wl(4), instrumented() ? 4 : 10, true);
  bound(p);
  World w(p);
  w.start(false, true);
  w.expect_ok("circuit");
  w.check_opened("circuit");
  w.check_pool("circuit");
  nontrivial();
  probe("opened values", p.opens);
  probe("multiplications", p.mults);
  sample(describe(p));
}
Reg r09("C09", "circuit", c09, 1, V_BOTH);

// ================================================================== C10
void c10() {
  Program p;
  draw_size(p, true);
  draw_keys(p);
  p.objs = coin(WL, 0.15);
  if (coin(WL, 0.25)) {
    add_pre(p, 1 + wl(4));
    batches(p, 1 + wl(3), 40);
  } else circuit(p, 1 + wl(3), 6, true);
  p.gate = true;
  // the undisturbed computation
  cfg = Cfg{};
  cfg.cap = 1 << 16;
  std::vector<u64> ops0(p.n), ops1(p.n), al0(p.n), al1(p.n), wr0(p.n), wr1(p.n);
  u64 st0 = 0, st1 = 0;
  World ref(p);
  ref.start(false, false, [&](size_t i) { int s = self_pid(); ops0[i] = proc_ops(s); al0[i] = allocs(s); wr0[i] = writes(s); st0 = steps(); });
  ref.expect_ok("undisturbed computation");
  ref.check_pool("undisturbed computation");
  for (size_t i = 0; i < p.n; i++) { ops1[i] = proc_ops(ref.pid[i]); al1[i] = allocs(ref.pid[i]); wr1[i] = writes(ref.pid[i]); }
  st1 = steps();
  reset_world();
  draw_cfg(F_ALL & ~F_REFUSE);
  bound(p);
  enum M { CRASH, ABORT, ALLOC, RST, WFAIL, MANY } m = (M)wl(6);
  static const char* const nm[] = {"crash", "abortive crash", "allocation failure", "connection reset", "write error", "several crashes"};
  bool ign = coin(WL, 0.4);
  std::vector<int> victim(p.n, 0);
  std::vector<u64> when(p.n);
  size_t nv = m == MANY ? 2 + wl(p.n - 1) : 1;
  for (size_t k = 0; k < nv && k < p.n; k++) {
    size_t v = wl(p.n);
    while (victim[v]) v = (v + 1) % p.n;
    victim[v] = 1;
    u64 span = m == ALLOC ? al1[v] - al0[v] : m == WFAIL ? wr1[v] - wr0[v] : m == RST ? st1 - st0 : ops1[v] - ops0[v];
    when[v] = 1 + flt(span + span / 8 + 1);
  }
  u64 which = m == RST ? flt(64) : 0;
  std::vector<u8> abortive(p.n);
  for (auto& a : abortive) a = m == ABORT || (m == MANY && flt(2));
  World w(p);
  bool armed = false;
  w.start(false, true, [&](size_t i) {
    if (ign) ::signal(SIGPIPE, SIG_IGN);
    int s = self_pid();
    if (!victim[i]) return;
    switch (m) {
      case CRASH: case ABORT: case MANY: plan_crash(s, proc_ops(s) + when[i], abortive[i]); break;
      case ALLOC: plan_alloc_fail(s, allocs(s) + when[i]); break;
      case WFAIL: plan_write_fail(s, writes(s) + when[i], when[i] % 2 ? EIO : ECONNRESET); break;
      case RST: if (!armed) plan_rst(steps() + when[i], which); armed = true; break;
    }
  });
  auto o = run();
  bool crash = m == CRASH || m == ABORT || m == MANY;
  if (!o.done && crash) {
    std::string s;
    for (size_t i = 0; i < p.n; i++) s += " p" + std::to_string(i) + ":" + w.out[i].stage + "/" + std::to_string(w.out[i].step) + "/" + exit_name(proc_exit(w.pid[i]));
    fail("hang", "after %s: %s;%s; waiting: %s", nm[m], o.capped ? "no end within the step/time bound" : "somebody waits for ever", s.c_str(), o.who.c_str());
  }
  size_t survivors = 0, partial = 0;
  for (size_t i = 0; i < p.n; i++) {
    auto &a = w.out[i], &b = ref.out[i];
    for (size_t x = 0; x < a.pool.size(); x++)
      SIM_CHECK(x < b.pool.size() && a.pool[x] == b.pool[x], "wrong-share", "after %s party %zu obtained a share of %s that differs from the undisturbed computation", nm[m], i, w.origin(x).c_str());
    for (size_t x = 0; x < a.opened.size(); x++)
      SIM_CHECK(x < b.opened.size() && a.opened[x] == b.opened[x], "wrong-value", "after %s party %zu opened %llu, undisturbed it is %llu", nm[m], i, (unsigned long long)a.opened[x], x < b.opened.size() ? (unsigned long long)b.opened[x] : 0);
    Exit e = proc_exit(w.pid[i]);
    if (e == Exit::Ok) {
      SIM_CHECK(a.done && a.pool.size() == b.pool.size() && a.opened.size() == b.opened.size(), "incomplete", "after %s party %zu ended normally without its results", nm[m], i);
      survivors++;
    }
    if (!a.done) partial++;
    if (crash && !victim[i]) SIM_CHECK(e == Exit::Ok || e == Exit::Error || e == Exit::Sigpipe, "party-failed", "after %s of others party %zu ended with %s: %s", nm[m], i, exit_name(e), proc_error(w.pid[i]).c_str());
  }
  if (partial) nontrivial();
  if (partial && survivors) probe("some finished, some did not");
  sample(describe(p) + ", " + nm[m]);
}
Reg r10("C10", "faults", c10, 1, V_BOTH);

// ================================================================== C11
void c11() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  draw_keys(p);
  p.summary = true;
  bool in = p.d == dmax(p.n) && coin(WL, 0.6);
  bool check = false;
  draw_bulk(p);
  if (in) add_in(p, 20); else add_pre(p, 1 + wl(6));
  batches(p, wl(4), p.n <= 5 ? 100 : 12);
  if (coin(WL, 0.25) && p.d == dmax(p.n) && p.mults < 2000) { add_check(p); check = true; }
  if (coin(WL, 0.25)) add_open(p, 1 + wl(3), true);
  if (coin(WL, 0.4)) for (size_t i = 0; i < p.st.size(); i++) p.snap.push_back(coin(WL, 0.4));
  bound(p);
  World w(p);
  w.start(true, true);
  w.expect_ok("computation");
  std::vector<Summary> s(p.n);
  for (size_t i = 0; i < p.n; i++) {
    std::string why;
    std::vector<Summary> all;
    SIM_CHECK(parse_summaries(proc_stdout(w.pid[i]), p.n, all, why), "summary", "party %zu: %s", i, why.c_str());
    SIM_CHECK(all.size() == w.out[i].snaps.size(), "summary", "party %zu: %zu summaries in the output, %zu were asked for", i, all.size(), w.out[i].snaps.size());
    for (size_t k = 0; k < all.size(); k++)
      for (size_t j = 0; j < p.n; j++)
        SIM_CHECK((u64)all[k].sent[j] == w.out[i].snaps[k].first[j] && (u64)all[k].got[j] == w.out[i].snaps[k].second[j], "summary-traffic", "party %zu, summary %zu: %lld bytes sent to %zu and %lld received, really they are %llu and %llu", i, k,
                  (long long)all[k].sent[j], j, (long long)all[k].got[j], (unsigned long long)w.out[i].snaps[k].first[j], (unsigned long long)w.out[i].snaps[k].second[j]);
    if (all.size() > 1) probe("summaries in the middle of a session");
    s[i] = all.back();
  }
  size_t sh = layout(p.n, p.d).share() * 8;
  for (size_t i = 0; i < p.n; i++)
    for (size_t j = 0; j < p.n; j++) {
      // volume of the protocols, i -> j
      i64 want = 0;
      for (auto& x : p.st) {
        if (x.k == Step::IN) want += sh + 8 * x.contrib[i].size();
        if (x.k == Step::OPEN && x.recv[j]) want += sh * x.open.size();
        if (x.k == Step::MUL) want += 8 * x.mul.size() * ((i < 2 * p.d + 1 && j == 0) + (i == 0 && j < p.n - p.d));
      }
      i64 a = s[i].sent[j], b = s[j].got[i];
      SIM_CHECK(a == b, "summary-mismatch", "party %zu reports %lld bytes sent to %zu, which reports %lld received", i, (long long)a, j, (long long)b);
      if (i != j) {
        i64 x = (i64)wire(w.pid[i], w.pid[j]).size();
        // tokens of the connection set-up are not payload
        static bool first = true;
        (void)first;
        SIM_CHECK(x == a, "wire", "party %zu reports %lld bytes sent to %zu, on the wire were %lld", i, (long long)a, j, (long long)x);
      }
      if (!check) SIM_CHECK(a == want, "volume", "party %zu sent %lld bytes to %zu, the protocols need %lld", i, (long long)a, j, (long long)want);
      if (want) nontrivial();
    }
  sample(describe(p));
}
Reg r11("C11", "summary", c11, 1, V_FAST);

// ================================================================== C12
void records(World& w) {
  const Program& p = w.p;
  size_t U = 2 * p.d + 1, M = p.mults;
  std::vector<std::pair<size_t, size_t>> pairs;
  for (auto& s : p.st) if (s.k == Step::MUL) for (auto& m : s.mul) pairs.push_back(m);
  for (size_t i = 0; i < p.n; i++) {
    auto& cd = *w.out[i].cd;
    SIM_CHECK(cd.counter == M, "record-count", "party %zu counts %zu multiplications of %zu", i, (size_t)cd.counter, M);
    SIM_CHECK(cd.shares_sent_to_p1.size() == M, "record-count", "party %zu recorded %zu sent shares for %zu multiplications", i, cd.shares_sent_to_p1.size(), M);
    SIM_CHECK(cd.msgs.size() == M, "record-count", "party %zu recorded %zu messages for %zu multiplications", i, cd.msgs.size(), M);
    if (i < p.n - p.d) SIM_CHECK(cd.values_recv_from_p1.size() == M, "record-count", "party %zu recorded %zu opened values for %zu multiplications", i, cd.values_recv_from_p1.size(), M);
    for (auto& m : cd.msgs) SIM_CHECK(m.size() == U, "record-count", "party %zu recorded messages of %zu parties instead of %zu", i, m.size(), U);
  }
  auto& c0 = *w.out[0].cd;
  SIM_CHECK(c0.shares_recv_by_p1.size() == U, "record-count", "party 0 recorded shares of %zu parties instead of %zu", c0.shares_recv_by_p1.size(), U);
  for (size_t i = 0; i < U; i++) {
    SIM_CHECK(c0.shares_recv_by_p1[i].size() == M, "record-count", "party 0 recorded %zu shares of party %zu for %zu multiplications", c0.shares_recv_by_p1[i].size(), i, M);
    for (size_t k = 0; k < M; k++)
      SIM_CHECK(val(c0.shares_recv_by_p1[i][k]) == val(w.out[i].cd->shares_sent_to_p1[k]), "record-mismatch", "multiplication %zu: party 0 recorded %llu from party %zu, which recorded %llu as sent", k, (unsigned long long)val(c0.shares_recv_by_p1[i][k]), i, (unsigned long long)val(w.out[i].cd->shares_sent_to_p1[k]));
  }
  for (size_t k = 0; k < M; k++) {
    u64 sum = 0;
    for (size_t i = 0; i < U; i++) sum = add(sum, val(w.out[i].cd->shares_sent_to_p1[k]));
    for (size_t i = 0; i < p.n - p.d; i++)
      SIM_CHECK(val(w.out[i].cd->values_recv_from_p1[k]) == sum, "record-mismatch", "multiplication %zu: party %zu recorded the opened value %llu, the shares sent add up to %llu", k, i, (unsigned long long)val(w.out[i].cd->values_recv_from_p1[k]), (unsigned long long)sum);
  }
  // what was put on the wire (programs without other traffic)
  bool pure = true;
  for (auto& s : p.st) pure &= s.k == Step::PRE || s.k == Step::MUL || s.k == Step::LIN;
  if (pure) {
    auto same = [&](size_t i, size_t j, const std::vector<Field>& v, const char* what) {
      const std::string& x = wire(w.pid[i], w.pid[j]);
      SIM_CHECK(x.size() == 8 * v.size(), "record-mismatch", "%s: %zu bytes were on the wire from %zu to %zu for %zu recorded values", what, x.size(), i, j, v.size());
      for (size_t k = 0; k < v.size(); k++) SIM_CHECK(le64((const u8*)x.data() + 8 * k) == val(v[k]), "record-mismatch", "%s: record %zu of %zu/%zu differs from the wire", what, k, i, j);
    };
    for (size_t i = 1; i < U; i++) same(i, 0, w.out[i].cd->shares_sent_to_p1, "shares sent");
    for (size_t j = 1; j < p.n - p.d; j++) same(0, j, w.out[j].cd->values_recv_from_p1, "opened values");
  }
  const Layout& l = layout(p.n, 2 * p.d);
  for (size_t k = 0; k < M; k++) {
    u64 prod = 0;
    for (size_t u = 0; u < U; u++) {
      std::vector<Vec> v;
      std::vector<const Vec*> s;
      for (size_t i = 0; i < p.n; i++) v.push_back(vals(w.out[i].cd->msgs[k][u]));
      for (auto& x : v) s.push_back(&x);
      u64 r;
      std::string why;
      if (!mpc::join(l, s, r, why)) fail("record-mismatch", "multiplication %zu: the message of party %zu: %s", k, u, why.c_str());
      prod = add(prod, r);
    }
    u64 want = mul(p.clear[pairs[k].first], p.clear[pairs[k].second]);
    SIM_CHECK(prod == want, "record-mismatch", "multiplication %zu: the recorded messages add up to %llu, the product is %llu", k, (unsigned long long)prod, (unsigned long long)want);
  }
}
void c12() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  prelude(p);
  draw_keys(p);
  p.objs = coin(WL, 0.3);
  if (coin(WL, 0.7)) {
    add_pre(p, 1 + wl(6));
    draw_bulk(p);
    batches(p, 1 + wl(5), p.n <= 5 && !instrumented() ? 60 : 10);
  } else circuit(p, 1 + wl(3), 6, true);
  bound(p);
  World w(p);
  w.start(false, true);
  w.expect_ok("multiplication");
  records(w);
  if (p.mults) nontrivial();
  probe("multiplications", p.mults);
  sample(describe(p));
}
Reg r12("C12", "records", c12, 1, V_BOTH);

// ================================================================== C13
// Gaussian elimination over the field: is A c = b solvable?
// `fixed`: which unknowns have only one possible value
bool solve(std::vector<Vec> a, size_t m, Vec& c, std::vector<bool>& fixed) {  // rows: m coefficients and the right-hand side
  size_t r = 0;
  std::vector<int> piv(m, -1);
  for (size_t k = 0; k < m; k++) {
    size_t x = r;
    while (x < a.size() && !a[x][k]) x++;
    if (x == a.size()) continue;
    std::swap(a[x], a[r]);
    u64 iv = sc::inv(a[r][k]);
    for (size_t y = k; y <= m; y++) a[r][y] = mul(a[r][y], iv);
    for (size_t z = 0; z < a.size(); z++)
      if (z != r && a[z][k]) {
        u64 f = a[z][k];
        for (size_t y = k; y <= m; y++) a[z][y] = sub(a[z][y], mul(f, a[r][y]));
      }
    piv[k] = (int)r++;
  }
  for (size_t z = r; z < a.size(); z++) if (a[z][m]) return false;
  c.assign(m, 0);
  fixed.assign(m, false);
  for (size_t k = 0; k < m; k++)
    if (piv[k] >= 0) {
      c[k] = a[piv[k]][m];
      fixed[k] = true;
      for (size_t f = 0; f < m; f++) if (piv[f] < 0 && a[piv[k]][f]) { fixed[k] = false; break; }
    }
  return true;
}
void c13() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, false);
  prelude(p);
  if (p.n > 10) { p.n = 10; p.d = dmax(10); }   // beyond that a run takes too long
  draw_keys(p);
  add_pre(p, 2 + wl(6));
  size_t b = wl(4);
  if (!instrumented() && p.n <= 5 && coin(WL, 0.012)) p.bulk = coin(WL, 0.7) ? 200 + wl(600) : coin(WL, 0.9) ? 200 + wl(2000) : 5000 + wl(62000);
  if (p.bulk && !b) b = 1;
  if (p.bulk ? coin(WL, 0.8) : coin(WL, 0.15)) add_blank(p, layout(p.n, 2 * p.d).pieces() - 1);
  for (size_t i = 0; i < b; i++) {
    size_t k = coin(WL, 0.5) ? wl(3) : wl(instrumented() ? 4 : 9);
    if (coin(WL, 0.03)) k = wl(p.n <= 5 ? 150 : 12);
    if (p.bulk && (i + 1 >= b || coin(WL, 0.5))) k = p.bulk, p.bulk = 0;
    add_mul(p, k);
    if (coin(WL, 0.3)) add_lin(p, 1 + wl(3));
  }
  add_check(p);
  bool again = coin(WL, 0.2);
  if (again) {
    add_mul(p, 1 + wl(3));
    if (coin(WL, 0.5)) { add_check(p); if (coin(WL, 0.3)) add_mul(p, 1); }
  }
  bound(p);
  World w(p);
  w.start(true, true);
  w.expect_ok("check");
  w.check_pool("check");
  const Layout& l = layout(p.n, 2 * p.d);
  size_t U = 2 * p.d + 1, n = p.n, total = 0;
  // nothing left unread
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      SIM_CHECK(w.rec[i]->sent[j] == w.rec[j]->got[i], "unread", "party %zu sent %llu bytes to %zu, which read %llu", i, (unsigned long long)w.rec[i]->sent[j], j, (unsigned long long)w.rec[j]->got[i]);
  for (size_t cs = 0; cs < p.st.size(); cs++) {
  if (p.st[cs].k != Step::CHECK) continue;
  size_t M = 0;
  for (size_t i = 0; i < cs; i++) if (p.st[i].k == Step::MUL) M += p.st[i].mul.size();
  total += M;
  // field elements sent in the check, by sender and receiver; the elements of
  // the second list (place-holders for digests) are zero and carry nothing
  std::vector<std::vector<Vec>> x(n, std::vector<Vec>(n));
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      // both lists are preceded by their lengths
      Bytes b = w.rec[i]->stream(cs, (int)j);
      Vec v;
      size_t at = 0;
      bool ok = true;
      for (int list = 0; list < 2; list++) {
        u32 k = 0;
        if (b.size() - at >= 4) memcpy(&k, &b[at], 4), at += 4; else ok = false;
        if ((b.size() - at) / 8 < k) { ok = false; break; }
        for (u32 y = 0; y < k; y++, at += 8) { u64 e; memcpy(&e, &b[at], 8); v.push_back(e); }
      }
      if (!ok || at != b.size()) {  // some other form: whatever was sent as elements
        v.clear();
        for (auto& s : w.rec[i]->log) if (s.step == cs && s.to == (int)j) v.insert(v.end(), s.v.begin(), s.v.end());
      }
      for (u64 e : v) if (e) x[i][j].push_back(e);
    }
  auto msg = [&](size_t k, size_t u, size_t g) {  // piece g of the message of u in multiplication k
    int h = l.comb[g][0];
    size_t at = std::find(l.idx[h].begin(), l.idx[h].end(), (int)g) - l.idx[h].begin();
    return val(w.out[h].cd->msgs[k][u][at]);
  };
  // coefficients: first those of the generator the code is documented to use,
  // then any that explain what was sent
  auto attempt = [&](const Vec& c, std::string& why) {
    std::vector<Vec> comb(U, Vec(l.pieces()));
    for (size_t u = 0; u < U; u++)
      for (size_t g = 0; g < l.pieces(); g++)
        for (size_t k = 0; k < M; k++) comb[u][g] = add(comb[u][g], mul(c[k], msg(k, u, g)));
    for (size_t j = 0; j < n; j++) {
      std::map<u64, int> want;
      for (size_t g = 0; g < l.pieces(); g++) {
        if (std::find(l.comb[g].begin(), l.comb[g].end(), (int)j) != l.comb[g].end()) continue;
        for (size_t u = 0; u < U; u++) if (comb[u][g]) want[comb[u][g]]++;
      }
      for (size_t i = 0; i < n; i++) for (u64 v : x[i][j]) want[v]--;
      size_t miss = 0, extra = 0;
      for (auto& e : want) { if (e.second > 0) miss += e.second; if (e.second < 0) extra -= e.second; }
      if (miss || extra) { why = "party " + std::to_string(j) + " was not sent " + std::to_string(miss) + " of the combined values it lacks and was sent " + std::to_string(extra) + " other values"; return false; }
    }
    return true;
  };
  Vec c(M);
  PRG prg;
  for (auto& v : c) { Field f = frn::GetRandomElement(prg); v = val(f); }
  std::string why;
  bool ok = attempt(c, why);
  if (!ok && M) {
    // any coefficients: the values sent by a set's first member, in order
    std::vector<Vec> rows;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        size_t pos = 0;
        for (int g : l.idx[i]) {
          if (l.comb[g][0] != (int)i || std::find(l.comb[g].begin(), l.comb[g].end(), (int)j) != l.comb[g].end()) continue;
          for (size_t u = 0; u < U; u++) {
            Vec r(M + 1);
            bool z = true;
            for (size_t k = 0; k < M; k++) { r[k] = msg(k, u, g); z &= !r[k]; }
            if (z) continue;
            if (pos < x[i][j].size()) { r[M] = x[i][j][pos++]; rows.push_back(r); }
          }
        }
      }
    // a value sent to several parties appears several times
    std::sort(rows.begin(), rows.end());
    rows.erase(std::unique(rows.begin(), rows.end()), rows.end());
    std::string w2;
    std::vector<bool> fixed;
    if (solve(rows, M, c, fixed) && attempt(c, w2)) {
      // products with the same message, or more of them than values: not all coefficients can be told
      std::set<u64> d{0};
      ok = true;
      for (size_t k = 0; k < M; k++) if (fixed[k]) ok = ok && d.insert(c[k]).second;
      why = "the messages are combined with coefficients that are zero or repeat";
    }
  }
  SIM_CHECK(ok, "check-exchange", "after %zu multiplications: %s", M, why.c_str());
  }
  if (total) nontrivial();
  probe("multiplications checked", total);
  sample(describe(p));
}
Reg r13("C13", "check", c13, 1, V_BOTH);

// ================================================================== C14
void c14() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  draw_keys(p, true);
  bool can_in = p.d == dmax(p.n);
  if (coin(WL, 0.5)) draw_bulk(p);
  if (can_in && coin(WL, 0.8)) add_in(p, coin(WL, 0.1) && p.n <= 5 ? 200 : 12); else add_pre(p, 1 + wl(5));
  size_t b = 1 + wl(4);
  if (!p.bulk) draw_bulk(p);
  for (size_t i = 0; i < b; i++) {
    if (can_in && coin(WL, 0.25)) add_in(p, 4);
    if (coin(WL, 0.3)) add_lin(p, 1 + wl(3));
    size_t k = draw_count(p.n <= 5 ? 40 : 8);
    if (p.bulk && coin(WL, 0.5)) k = p.bulk, p.bulk = 0;
    add_mul(p, k);
  }
  bound(p);
  World w(p);
  w.start(true, true);
  w.expect_ok("session");
  size_t n = p.n, U = 2 * p.d + 1;
  std::map<u64, std::string> seen;
  size_t masks = 0;
  auto mask = [&](u64 m, const std::string& what) {
    SIM_CHECK(m != 0, "unmasked", "%s leaves the party without a mask", what.c_str());
    auto r = seen.insert({m, what});
    SIM_CHECK(r.second || r.first->second == what, "mask-reuse", "the mask of %s is also the mask of %s", what.c_str(), r.first->second.c_str());
    masks += r.second;
  };
  // input setup: the pieces of the keys
  for (size_t i = 0; i < n; i++) {
    std::vector<std::set<u64>> got(n);
    std::set<u64> all;
    for (size_t j = 0; j < n; j++)
      for (u64 v : RecNet::words(w.rec[i]->stream(SETUP, (int)j))) { got[j].insert(v); all.insert(v); }
    if (all.empty()) continue;
    std::vector<int> c(p.d);
    for (size_t k = 0; k < p.d; k++) c[k] = (int)k;
    for (;;) {  // every coalition of d parties
      bool self = false;
      std::set<u64> un;
      for (int q : c) { self |= q == (int)i; un.insert(got[q].begin(), got[q].end()); }
      SIM_CHECK(self || un.size() < all.size(), "key-exposed", "setup: a coalition of %zu parties is sent all %zu pieces of the key of party %zu", p.d, all.size(), i);
      int k = (int)p.d - 1;
      while (k >= 0 && c[k] == (int)(n - p.d + k)) k--;
      if (k < 0) break;
      c[k]++;
      for (size_t y = k + 1; y < p.d; y++) c[y] = c[y - 1] + 1;
    }
    probe("keys distributed");
  }
  // traffic of the protocol steps
  std::vector<size_t> before(n);
  std::vector<Vec> secrets(n);
  size_t mults = 0;
  for (size_t st = 0; st < p.st.size(); st++) {
    auto& s = p.st[st];
    std::vector<std::vector<Vec>> x(n, std::vector<Vec>(n));
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        Bytes b = w.rec[i]->stream(st, (int)j);
        SIM_CHECK(b.size() % 8 == 0, "unmasked", "party %zu sends %zu bytes to %zu in step %zu, which are not field elements", i, b.size(), j, st);
        x[i][j] = RecNet::words(b);
      }
    if (s.k == Step::IN) {
      for (size_t i = 0; i < n; i++) {
        size_t k = s.contrib[i].size(), had = secrets[i].size();
        secrets[i].insert(secrets[i].end(), s.contrib[i].begin(), s.contrib[i].end());
        for (size_t j = 0; j < n; j++) {
          size_t got = x[i][j].size();
          SIM_CHECK(got == k || got == k + had || (!k && !got), "unmasked", "party %zu sends %zu values to %zu for %zu inputs", i, got, j, k);
          size_t off = got == k ? had : 0;
          for (size_t y = 0; y < got; y++)
            mask(sub(secrets[i][off + y], x[i][j][y]), "input " + std::to_string(off + y) + " of party " + std::to_string(i));
        }
      }
    } else if (s.k == Step::MUL) {
      size_t k = s.mul.size();
      for (size_t i = 0; i < n; i++) {
        bool two = i == 0;  // party 0 also sends itself its share, before the opened values
        for (size_t j = 0; j < n; j++) {
          size_t want = (j == 0 && i < U ? k : 0) + (i == 0 && j < n - p.d ? k : 0);
          SIM_CHECK(x[i][j].size() == want, "unmasked", "party %zu sends %zu values to %zu for %zu products, %zu are expected", i, x[i][j].size(), j, k, want);
        }
        if (i < U)
          for (size_t y = 0; y < k; y++) {
            ShrManipulator m = man(i, n, p.d);
            u64 part = val(m.MultiplyToAdditive(flds(w.out[i].pool[s.mul[y].first]), flds(w.out[i].pool[s.mul[y].second])));
            mask(sub(part, x[i][0][y]), "the share of party " + std::to_string(i) + " for product " + std::to_string(mults + y));
          }
        (void)two;
      }
      for (size_t j = 0; j < n - p.d; j++)
        for (size_t y = 0; y < k; y++) {
          u64 v = x[0][j][(j == 0 ? k : 0) + y];
          mask(sub(mul(p.clear[s.mul[y].first], p.clear[s.mul[y].second]), v), "the opened value of product " + std::to_string(mults + y));
        }
      mults += k;
    } else
      for (auto& r : x) for (auto& v : r) SIM_CHECK(v.empty(), "unmasked", "values are sent in a step that needs no communication");
  }
  if (masks) nontrivial();
  probe("masks compared", masks);
  sample(describe(p));
}
Reg r14("C14", "masks", c14, 1, V_FAST);

// ================================================================== C15
Vec record_bits(const frn::CheckData& cd) {
  Vec r;
  auto put = [&](const std::vector<Field>& v) { r.push_back(v.size()); for (auto& f : v) r.push_back(val(f)); };
  put(cd.shares_sent_to_p1);
  for (auto& v : cd.shares_recv_by_p1) put(v);
  put(cd.values_recv_from_p1);
  for (auto& m : cd.msgs) for (auto& v : m) put(v);
  r.push_back(cd.counter);
  return r;
}
void c15() {
  Program p;
  draw_size(p, true);
  draw_keys(p);
  p.objs = coin(WL, 0.15);
  circuit(p, 1 + wl(4), instrumented() ? 4 : 8, true);
  cfg = Cfg{};
  cfg.cap = 1 << 16;
  bound(p);
  World a(p);
  a.start(false, false);
  a.expect_ok("first execution");
  std::vector<Vec> rec;
  std::vector<std::vector<std::string>> wires(p.n, std::vector<std::string>(p.n));
  for (auto& o : a.out) rec.push_back(record_bits(*o.cd));
  for (size_t i = 0; i < p.n; i++) for (size_t j = 0; j < p.n; j++) if (i != j) wires[i][j] = wire(a.pid[i], a.pid[j]);
  reset_world();
  cfg = Cfg{};
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  static const u8 fill[] = {0x5A, 0x00, 0xFF, 0x01};
  cfg.poison = fill[flt(4)];
  if (coin(FLT, 0.6)) cfg.heap_mix = 1 + flt(1000000);
  bound(p);
  World b(p);
  b.start(false, true);
  b.expect_ok("second execution");
  for (size_t i = 0; i < p.n; i++) {
    auto &x = a.out[i], &y = b.out[i];
    SIM_CHECK(x.pool.size() == y.pool.size() && x.opened.size() == y.opened.size(), "nondeterminism", "party %zu obtains %zu shares in one execution and %zu in another", i, x.pool.size(), y.pool.size());
    for (size_t k = 0; k < x.pool.size(); k++) SIM_CHECK(x.pool[k] == y.pool[k], "nondeterminism", "party %zu: its share of %s differs between two executions", i, b.origin(k).c_str());
    for (size_t k = 0; k < x.opened.size(); k++) SIM_CHECK(x.opened[k] == y.opened[k], "nondeterminism", "party %zu: an opened value differs between two executions", i);
    SIM_CHECK(rec[i] == record_bits(*y.cd), "nondeterminism", "party %zu: the verification record differs between two executions", i);
  }
  b.check_pool("second execution");
  nontrivial();
  sample(describe(p));
}
Reg r15("C15", "determinism", c15, 1, V_BOTH);

// ================================================================== C16
void c16() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  static const size_t ns[] = {4, 5, 7, 6, 4, 5, 8, 9};
  size_t n = ns[wl(instrumented() ? 3 : 8)];
  size_t top = (n - 1) / 2;
  size_t d = 1 + (top > 1 && coin(WL, 0.6) ? wl(top) : 0);
  if (coin(WL, 0.4)) d = dmax(n);
  { Program next; next.n = n; next.d = d; prelude(next); }
  const Layout& l = layout(n, d);
  size_t k = 1 + wl(4);
  Vec secret(k);
  std::vector<std::vector<Vec>> sh(k);  // [value][party]
  for (size_t v = 0; v < k; v++) { secret[v] = rndf(); sh[v] = deal(l, secret[v]); }
  // corrupt parties and what they send
  size_t nb = wl(d + 1);
  if (coin(WL, 0.6)) nb = d;
  std::vector<u8> byz(n, 0);
  for (size_t x = 0; x < nb; x++) { size_t q = wl(n); while (byz[q]) q = (q + 1) % n; byz[q] = 1; }
  std::vector<std::vector<std::vector<Vec>>> msg(n, std::vector<std::vector<Vec>>(n, std::vector<Vec>(k)));  // [from][to][value]
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t v = 0; v < k; v++) msg[i][j][v] = sh[v][i];
  std::vector<u8> cut(n, 0);
  size_t altered = 0;
  for (size_t j = 0; j < n && nb; j++) {
    for (size_t v = 0; v < k; v++) {
      int how = (int)flt(12);
      u64 delta = 1 + rnd64() % (P - 1);
      switch (flt(4)) {  // differences of a special form
        case 1: delta = 1ull << flt(61); break;
        case 2: delta = P - (1ull << flt(61)); break;
        case 3: { size_t s = flt(60); delta = ((1 + rnd64() % 255) << s) % P; if (!delta) delta = 1; break; }
      }
      int g = (int)flt(l.pieces());
      bool last = coin(FLT, 0.3), odd_one = false;
      Vec other = deal(l, rndf())[0];
      for (size_t i = 0; i < n; i++) {
        if (!byz[i] || i == j) continue;
        Vec& m = msg[i][j][v];
        Vec was = m;
        switch (how) {
          case 0: break;
          case 1: { size_t x = flt(m.size()); m[x] = add(m[x], delta); break; }  // one piece
          case 2:  // the colluders change the same piece by the same amount
            for (size_t x = 0; x < m.size(); x++) if (l.idx[i][x] == g) m[x] = add(m[x], delta);
            break;
          case 3: for (auto& x : m) x = rnd64() % P; break;
          case 4: if (k > 1) m = sh[(v + 1) % k][i]; break;  // the share of another value
          case 5: { // two pieces, keeping the sum
            size_t x = last ? m.size() - 1 : flt(m.size()), y = flt(m.size());
            m[x] = add(m[x], delta);
            m[y] = sub(m[y], delta);
            break;
          }
          case 6: {  // two pieces exchanged
            size_t x = flt(m.size()), y = last ? m.size() - 1 : flt(m.size());
            std::swap(m[x], m[y]);
            break;
          }
          case 7: for (auto& x : m) x = 0; break;
          case 8: for (auto& x : m) x = sub(0, x); break;
          case 11:  // the colluders change the same piece by opposite amounts
            for (size_t x = 0; x < m.size(); x++)
              if (l.idx[i][x] == g) { m[x] = odd_one ? sub(m[x], delta) : add(m[x], delta); odd_one = !odd_one; }
            break;
          case 9: for (auto& x : m) x = add(x, delta); break;  // every piece by the same amount
          default: m.back() = add(m.back(), last ? 1 : delta); break;
        }
        if (m != was) altered++;
      }
    }
  }
  for (size_t i = 0; i < n; i++) if (byz[i] && coin(FLT, 0.1)) cut[i] = 1 + (u8)flt(3);
  if (altered) fault(FK_BYZ);
  int port = 2000 + 100 * (int)wl(300);
  bool shr = d == dmax(n) && coin(WL, 0.7);
  // corrupt parties may also encode an element by a word that is not reduced
  std::vector<u8> odd(n, 0);
  for (size_t i = 0; i < n; i++) if (byz[i] && !shr && coin(FLT, 0.2)) odd[i] = 1 + (u8)flt(7);
  bool anyodd = false;
  for (u8 x : odd) anyodd |= x > 0;
  std::vector<std::vector<u8>> state(n, std::vector<u8>(k, 0));  // 0 nothing, 1 value, 2 error
  std::vector<Vec> res(n, Vec(k));
  std::vector<u8> lost(n, 0);
  std::vector<int> pid(n);
  for (size_t i = 0; i < n; i++)
    pid[i] = spawn((int)i, 0, i && coin(FLT, 0.2) ? start_delay() : 0, [&, i] {
      ::signal(SIGPIPE, SIG_IGN);
      Net& net = make_net((unsigned)i, n, port);
      net->Connect();
      for (size_t j = 0; j < n; j++) {
        size_t cnt = k;
        if (cut[i]) cnt = cut[i] == 1 ? 0 : k - 1;
        std::vector<Shr> s;
        { Book b; for (size_t v = 0; v < cnt; v++) s.push_back(flds(msg[i][j][v])); }
        if (shr) net->SendShares((unsigned)j, s);
        else if (odd[i] && i != j) for (size_t v = 0; v < cnt; v++) {
          Bytes raw(8 * l.share());
          for (size_t x = 0; x < l.share(); x++) { u64 e = msg[i][j][v][x] + odd[i] % 8 * P; memcpy(&raw[8 * x], &e, 8); }
          net->SendBytes((unsigned)j, raw);
        }
        else for (auto& x : s) net->Send((unsigned)j, x);
      }
      if (cut[i]) { sleep_ns(1000000000ull); return; }  // leaves early
      std::vector<std::vector<Shr>> all(k, std::vector<Shr>(n));
      for (size_t j = 0; j < n; j++) try {
        if (shr) {
          auto v = net->RecvShares((unsigned)j, k);
          for (size_t x = 0; x < k; x++) all[x][j] = v[x];
        } else
          for (size_t x = 0; x < k; x++) all[x][j] = net->Recv((unsigned)j, l.share());
      } catch (const std::exception&) {
        Book b;
        lost[i] = 1;
      }
      if (!byz[i] && !lost[i])
        for (size_t v = 0; v < k; v++) {
          try {
            Field f = rep(n, d).ErrorDetection(all[v]);
            Book b;
            state[i][v] = 1;
            res[i][v] = val(f);
          } catch (const std::exception&) { Book b; state[i][v] = 2; }
        }
      net->Close();
    });
  auto o = run();
  bool anycut = false;
  for (u8 c : cut) anycut |= c;
  expect_done(o, "opening");
  for (size_t j = 0; j < n; j++) {
    if (!byz[j] && !anycut) SIM_CHECK(proc_exit(pid[j]) == Exit::Ok && !lost[j], "party-failed", "party %zu ended with %s: %s", j, exit_name(proc_exit(pid[j])), proc_error(pid[j]).c_str());
    if (byz[j]) continue;
    for (size_t v = 0; v < k; v++) {
      std::vector<const Vec*> s;
      for (size_t i = 0; i < n; i++) s.push_back(&msg[i][j][v]);
      u64 x;
      std::string why;
      bool same = mpc::join(l, s, x, why);
      if (state[j][v] == 0) continue;
      if (state[j][v] == 1) {
        SIM_CHECK(same, "undetected", "n %zu d %zu, %zu corrupt: party %zu accepted %llu for value %zu although %s", n, d, nb, j, (unsigned long long)res[j][v], v, why.c_str());
        SIM_CHECK(res[j][v] == secret[v], "wrong-value", "party %zu opened %llu instead of %llu", j, (unsigned long long)res[j][v], (unsigned long long)secret[v]);
      } else
        SIM_CHECK(!same || anyodd, "false-error", "n %zu d %zu: party %zu reports an error for value %zu although all copies agree", n, d, j, v);
      nontrivial();
      if (!same) probe("alterations detected");
    }
  }
  char b[160];
  snprintf(b, sizeof b, "n %zu d %zu, %zu values, %zu corrupt, %zu altered shares%s, policy %d", n, d, k, nb, altered, anycut ? ", early exit" : "", cfg.policy);
  sample(b);
}
Reg r16("C16", "opening", c16, 1, V_FAST);

// ================================================================== C19
// what a party does with its correlators
struct CorrOp { char k; size_t n, obj, other; bool assign; };
struct CorrRec { char k; Vec rep; u64 add; std::vector<Vec> each; };
void c19() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  Program p;
  draw_size(p, true);
  prelude(p);
  size_t n = p.n, d = p.d, U = 2 * d + 1;
  const Layout& l = layout(n, d);
  // histories: one per thread, the same at every party
  size_t T = coin(WL, 0.25) ? 2 : 1;
  bool deal_net = coin(WL, 0.5);
  std::vector<std::vector<Keys>> keys(T);       // successive dealings
  std::vector<std::vector<CorrOp>> ops(T);
  for (size_t t = 0; t < T; t++) {
    auto fresh = [&] { keys[t].emplace_back(); keys[t].back().draw(n, d, !coin(WL, 0.15) || keys[t].size() > 1); };
    fresh();
    size_t objs = 1, k = 1 + wl(10);
    for (size_t x = 0; x < k; x++) {
      CorrOp o{'r', 1, wl(objs), wl(objs), false};
      switch (wl(10)) {
        case 0: o.k = 'd'; o.n = 1 + wl(3); break;
        case 1: o.k = 'z'; o.n = 1 + wl(3); break;
        case 2: if (objs < 4) { o.k = 'c'; objs++; } break;                 // copy
        case 3: o.k = 'a'; break;                                           // assignment
        case 4: if (keys[t].size() < 4) { fresh(); o.k = 'k'; o.other = keys[t].size() - 1; o.n = wl(6); } break;  // new keys for this object
        case 5: o.k = 'm'; o.n = 1 + wl(3); break;                          // a copy works for a multiplication object
        default:
          o.n = coin(WL, 0.1) ? 1 + wl(instrumented() ? 20 : 200) : 1 + wl(6);
          if (coin(WL, 0.03) && !instrumented() && n <= 5) o.n = coin(WL, 0.02) ? 65500 + wl(300) : 1000 + wl(4000);
      }
      ops[t].push_back(o);
    }
    CorrOp last{'r', 1 + wl(3), 0, 0, false};
    for (size_t x = 0; x < objs; x++) { last.obj = x; ops[t].push_back(last); }
  }
  std::vector<std::vector<std::vector<CorrRec>>> rec(n, std::vector<std::vector<CorrRec>>(T));
  std::vector<int> pid(n);
  std::vector<size_t> at(n, 0);
  for (size_t i = 0; i < n; i++)
    pid[i] = spawn((int)i, 0, i && coin(FLT, 0.2) ? start_delay() : 0, [&, i] {
      Net& net = make_net((unsigned)i, n, p.port, p.log);
      net->Connect();
      // the keys: every party of U sends each piece to its holders
      std::vector<std::vector<Keys>> mine = keys;
      if (deal_net)
        for (size_t t = 0; t < T; t++)
          for (size_t r = 0; r < keys[t].size(); r++) {
            if (!keys[t][r].fresh) continue;
            if (i < U)
              for (size_t g = 0; g < l.pieces(); g++)
                for (int j : l.comb[g]) net->SendBytes((unsigned)j, Bytes(keys[t][r].k[i][g].begin(), keys[t][r].k[i][g].end()));
            for (size_t u = 0; u < U; u++)
              for (int g : l.idx[i]) {
                auto b = net->RecvBytes((unsigned)u, 16);
                Book k;
                memcpy(mine[t][r].k[u][g].data(), b.data(), 16);
              }
          }
      auto work = [&](size_t t) {
        auto& out = rec[i][t];
        std::vector<frn::Correlator> c;
        c.reserve(8);
        c.push_back(mine[t][0].make(i, n, d));
        frn::CheckData cd((unsigned)d);
        auto note = [&](char k, const Shr* rep, const Field& a, const std::vector<Shr>& each) {
          Book b;
          CorrRec r{k, rep ? vals(*rep) : Vec{}, val(a), {}};
          for (auto& e : each) r.each.push_back(vals(e));
          out.push_back(r);
        };
        for (auto& o : ops[t]) {
          auto& x = c[o.obj];
          switch (o.k) {
            case 'r': for (size_t k = 0; k < o.n; k++) { auto r = x.GenRandomShare(); note('r', &r.rep_share, r.add_share, r.rep_add_shares); } break;
            case 'd': for (size_t k = 0; k < o.n; k++) { auto r = x.GenRandomShareDummy(); note('d', &r.rep_share, r.add_share, r.rep_add_shares); } break;
            case 'z': for (size_t k = 0; k < o.n; k++) { auto r = x.GenZeroShareDummy(); note('z', nullptr, r.add_share, r.rep_add_shares); } break;
            case 'c': c.push_back(x); break;
            case 'a': if (o.other != o.obj) x = c[o.other]; break;
            case 'k': if (o.n & 4) x = mine[t][o.other].make(i, n, d); else mine[t][o.other].set(x, i, n, d, (unsigned)o.n); break;
            case 'm': {
              frn::Mult m(net, rep(n, d), man(i, n, d), x, cd);
              Shr z(l.share(), fld(1));
              for (size_t k = 0; k < o.n; k++) m.Prepare(z, z);
              break;
            }
          }
        }
      };
      if (T == 2) {
        std::thread th([&] { work(1); });
        work(0);
        th.join();
      } else work(0);
      net->Close();
      Book b;
      at[i] = 1;
    });
  auto o = run();
  expect_done(o, "correlated randomness");
  for (size_t i = 0; i < n; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok && at[i], "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  size_t draws = 0;
  for (size_t t = 0; t < T; t++) {
    // which stream each record comes from: (dealing, position), by the objects' histories
    struct Pos { size_t key, at; };
    std::vector<Pos> obj{{0, 0}};
    std::vector<Pos> src;
    for (auto& q : ops[t]) switch (q.k) {
      case 'r': for (size_t k = 0; k < q.n; k++) src.push_back({obj[q.obj].key, obj[q.obj].at++}); break;
      case 'd': case 'z': for (size_t k = 0; k < q.n; k++) src.push_back({0, 0}); break;
      case 'c': obj.push_back(obj[q.obj]); break;
      case 'a': obj[q.obj] = obj[q.other]; break;
      case 'k': obj[q.obj] = {q.other, 0}; break;
    }
    std::map<std::pair<size_t, size_t>, u64> value;
    std::map<std::pair<size_t, u64>, size_t> used;   // value -> position
    for (size_t i = 0; i < n; i++) SIM_CHECK(rec[i][t].size() == src.size(), "output-count", "party %zu obtained %zu sharings instead of %zu", i, rec[i][t].size(), src.size());
    for (size_t x = 0; x < src.size(); x++) {
      char k = rec[0][t][x].k;
      const char* nm = k == 'r' ? "random sharing" : k == 'd' ? "dummy random sharing" : "dummy zero sharing";
      std::string why;
      u64 v = 0, sum = 0, s = 0;
      std::vector<const Vec*> sh;
      if (k != 'z') {
        for (size_t i = 0; i < n; i++) sh.push_back(&rec[i][t][x].rep);
        if (!mpc::join(l, sh, v, why)) fail("inconsistent", "%s %zu: %s", nm, x, why.c_str());
      }
      for (size_t i = 0; i < n; i++) {
        auto& r = rec[i][t][x];
        SIM_CHECK(r.each.size() == U, "output-count", "%s %zu: party %zu has shares of %zu additive shares instead of %zu", nm, x, i, r.each.size(), U);
        if (i >= U) SIM_CHECK(r.add == 0, "inconsistent", "%s %zu: party %zu has the additive share %llu, only the first %zu parties have one", nm, x, i, (unsigned long long)r.add, U);
        sum = add(sum, r.add);
        if (k == 'z') continue;
        for (size_t g = 0; g < l.share(); g++) {
          u64 e = 0;
          for (auto& y : r.each) if (g < y.size()) e = add(e, y[g]);
          SIM_CHECK(e == r.rep[g], "inconsistent", "%s %zu: party %zu: piece %zu of its share is not the sum of the pieces of the additive shares", nm, x, i, g);
        }
      }
      SIM_CHECK(sum == v, "wrong-value", "%s %zu: the additive shares add up to %llu, the replicated shares to %llu", nm, x, (unsigned long long)sum, (unsigned long long)v);
      for (size_t u = 0; u < U; u++) {
        sh.clear();
        for (size_t i = 0; i < n; i++) sh.push_back(&rec[i][t][x].each[u]);
        if (!mpc::join(l, sh, s, why)) fail("inconsistent", "%s %zu, additive share of party %zu: %s", nm, x, u, why.c_str());
        SIM_CHECK(s == rec[u][t][x].add, "wrong-value", "%s %zu: the parties share %llu as the additive share of party %zu, which holds %llu", nm, x, (unsigned long long)s, u, (unsigned long long)rec[u][t][x].add);
      }
      if (k != 'r') { SIM_CHECK(v == 0 && sum == 0, "wrong-value", "%s %zu has the value %llu", nm, x, (unsigned long long)v); continue; }
      draws++;
      // copies continue the sequence of their original; otherwise no value appears again
      auto e = value.insert({{src[x].key, src[x].at}, v});
      SIM_CHECK(e.first->second == v, "not-independent", "random sharing %zu: the value differs from the one another copy of the same object produced at this place", x);
      auto f = used.insert({{src[x].key, v}, src[x].at});
      SIM_CHECK(f.first->second == src[x].at, "reuse", "random sharing %zu repeats the value of an earlier one", x);
    }
  }
  if (draws) nontrivial();
  probe("random sharings compared", draws);
  if (T == 2) probe("correlators in two threads");
  char b[160];
  snprintf(b, sizeof b, "n %zu d %zu, %zu histories, %zu random sharings, keys %s, policy %d", n, d, T, draws, deal_net ? "dealt over the network" : "dealt", cfg.policy);
  sample(b);
}
Reg r19("C19", "correlator", c19, 1, V_BOTH);
}  // namespace
