// Transport scenarios: C01 (streams), C02 (connecting), C03 (closing),
// C04 (peer loss), C05 (nothing left behind).
#include "util.h"
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
using namespace sim;
using namespace sc;

namespace {
// ------------------------------------------------------------------ endpoints
// The two network layers of the repository behind one face.
struct End {
  virtual ~End() {}
  virtual void connect() = 0;
  virtual void close() = 0;
  virtual void send(int to, const u8* p, size_t n) = 0;
  virtual void bcast(const u8* p, size_t n) = 0;
  virtual Bytes recv(int from, size_t n) = 0;
  virtual bool fields() { return false; }
  virtual void sendf(int, const std::vector<Field>&) {}
  virtual void sends(int, const std::vector<Shr>&) {}
  virtual std::vector<Field> recvf(int, size_t) { return {}; }
  virtual std::vector<Shr> recvs(int, size_t) { return {}; }
};
struct TcpEnd : End {
  Net& n;
  TcpEnd(int id, size_t sz, int port, bool log) : n(make_net(id, sz, port, log)) {}
  void connect() override { n->Connect(); }
  void close() override { n->Close(); }
  void send(int to, const u8* p, size_t k) override { n->SendBytes(to, Bytes(p, p + k)); }
  void bcast(const u8* p, size_t k) override { for (size_t i = 0; i < n->Size(); i++) send(i, p, k); }
  Bytes recv(int from, size_t k) override { return n->RecvBytes(from, k); }
  bool fields() override { return true; }
  void sendf(int to, const std::vector<Field>& v) override { n->Send(to, v); }
  void sends(int to, const std::vector<Shr>& v) override { n->SendShares(to, v); }
  std::vector<Field> recvf(int from, size_t k) override { return n->Recv(from, k); }
  std::vector<Shr> recvs(int from, size_t k) override { return n->RecvShares(from, k); }
};
struct LibEnd : End {
  std::shared_ptr<LibNet>& n;
  LibEnd(int id, size_t sz, int port, const std::string& file) : n(*new std::shared_ptr<LibNet>) {
    LibNet::Builder b;
    b.LocalPeerId(id).TransportType(LibNet::TransportType::eTcp).Size(sz);
    if (port != LibNet::kBasePort) b.BasePort(port);
    if (file.empty()) b.AllPartiesLocal(); else b.ConnectionFile(file);
    n = b.BuildShared();
  }
  void connect() override { n->Connect(); }
  void close() override { n->Close(); }
  void send(int to, const u8* p, size_t k) override { n->SendTo(to, p, k); }
  void bcast(const u8* p, size_t k) override { n->Broadcast(p, k); }
  Bytes recv(int from, size_t k) override {
    Bytes b(k);
    if (k) n->RecvFrom(from, b.data(), k); else { u8 x = 0; n->RecvFrom(from, &x, 0); }
    return b;
  }
};
// Connection files are passed through anonymous memory, not the file system.
std::string conn_file(const std::vector<int>& host) {
  std::string s;
  for (int h : host) s += "10.0.0." + std::to_string(h) + "\n";
  int fd = memfd_create("hosts", 0);
  if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size()) fail("harness", "memfd");
  return "/proc/self/fd/" + std::to_string(fd);
}
struct World {
  size_t n = 0;
  bool tcp = true;
  bool log = false;
  int port = 9000;
  std::vector<int> host;   // host of each party
  std::string file;
  void draw(size_t minlib = 2) {
    tcp = !coin(WL, 0.4);
    n = tcp ? 4 + wl(thorough() ? 5 : 4) : minlib + wl(6 - minlib + 1);
    if (coin(WL, 0.03)) n = tcp ? 8 + wl(instrumented() ? 3 : 6) : 7 + wl(8);
    log = coin(WL, 0.15);
    port = 2000 + 100 * (int)wl(300);
    if (coin(WL, 0.05)) port = LibNet::kBasePort;
    host.assign(n, 0);
    if (!tcp && coin(WL, 0.6)) {
      for (size_t i = 0; i < n; i++) host[i] = 1 + (int)wl(n);
      file = conn_file(host);
    }
  }
  // built inside the party's process
  End* make(int id) const {
    if (tcp) return new TcpEnd(id, n, port, log);
    return new LibEnd(id, n, port, file);
  }
  std::string str() const {
    std::string s = std::to_string(n) + " parties, " + (tcp ? "TcpNetwork" : file.empty() ? "lib network, one host" : "lib network, hosts");
    if (!file.empty()) for (int h : host) s += " " + std::to_string(h);
    return s;
  }
};

// ------------------------------------------------------------------ traffic
struct Op {
  enum K { SB, SF, SS, BC, RB, RF, RS } k;
  int peer;
  size_t n;    // bytes, fields or shares
  size_t off;  // position in the stream (sends: of the data; receives: expected)
};
struct Traffic {
  size_t n;
  size_t shr;  // elements per share
  std::vector<std::vector<Bytes>> s;                 // [from][to]
  std::vector<std::vector<std::vector<u8>>> fieldat; // 1: field starts, 2: share starts
  std::vector<std::vector<std::vector<size_t>>> round_end;
  std::vector<std::vector<std::vector<Op>>> send, recv;  // [party][round]
  size_t total = 0;
};
size_t draw_size(bool big) {
  switch (wl(8)) {
    case 0: return 1;
    case 1: return 0;
    case 2: case 3: return 1 + wl(16);
    case 4: return 1 + wl(300);
    case 5: {
      // sizes at which buffers and segments end
      static const size_t edge[] = {8, 64, 128, 256, 512, 1000, 1024, 1460, 2048, 4096, 8192, 16384, 65536};
      if (coin(WL, 0.5)) return edge[wl(big ? 13 : 11)] * (coin(WL, 0.2) ? 3 : 1) + (coin(WL, 0.5) ? 0 : wl(3)) - 1 + (coin(WL, 0.5) ? 1 : 0);
      return 1 + wl(5000);
    }
    case 6: return big ? 1 + wl(200000) : 1 + wl(64);
    default: return 1 + wl(40);
  }
}
u64 salt;
void append_bytes(Traffic& t, int i, int j, size_t k) {
  Bytes& b = t.s[i][j];
  u64 key = salt + (u64)(i * 64 + j) * 0x100000000ull;
  for (size_t x = 0; x < k; x++) {
    size_t p = b.size();
    b.push_back((u8)(content(key + p / 8) >> (8 * (p % 8))));
    t.fieldat[i][j].push_back(0);
  }
  t.total += k;
}
void append_fields(Traffic& t, int i, int j, size_t k, bool shares) {
  Bytes& b = t.s[i][j];
  for (size_t x = 0; x < k; x++) {
    u64 v = rndf();
    for (int y = 0; y < 8; y++) {
      b.push_back((u8)(v >> (8 * y)));
      t.fieldat[i][j].push_back(y ? 0 : (shares && x % t.shr == 0) ? 2 : 1);
    }
  }
  t.total += 8 * k;
}
// Draw the complete traffic plan: `rounds` rounds in which everybody sends and
// then receives (not necessarily everything).
Traffic plan(const World& w, size_t rounds, size_t maxops, bool big, double density, bool self = true) {
  Traffic t;
  t.n = w.n;
  size_t d = (w.n - 1) / 3;
  t.shr = w.tcp ? frn::lib::secret_sharing::Binom(w.n - 1, d) : 1;
  t.s.assign(w.n, std::vector<Bytes>(w.n));
  t.fieldat.assign(w.n, std::vector<std::vector<u8>>(w.n));
  t.round_end.assign(w.n, std::vector<std::vector<size_t>>(w.n));
  t.send.assign(w.n, std::vector<std::vector<Op>>(rounds));
  t.recv = t.send;
  salt = rnd64();
  for (size_t r = 0; r < rounds; r++) {
    for (size_t i = 0; i < w.n; i++) {
      size_t ops = wl(maxops + 1);
      for (size_t o = 0; o < ops; o++) {
        int to = (int)wl(w.n);
        if (!self && to == (int)i) continue;
        if (!coin(WL, density)) continue;
        Op op{Op::SB, to, 0, 0};
        int k = (int)wl(w.tcp ? 4 : 3);
        if (w.tcp && k == 1) {
          op.k = Op::SF;
          op.n = wl(4) ? wl(6) : wl(3) ? wl(200) : (size_t)1 << wl(10);
          op.off = t.s[i][to].size();
          append_fields(t, i, to, op.n, false);
        } else if (w.tcp && k == 2) {
          op.k = Op::SS;
          op.n = wl(5);
          op.off = t.s[i][to].size();
          append_fields(t, i, to, op.n * t.shr, true);
        } else if (k == 2 && self) {  // broadcast: same bytes to everybody
          op.k = Op::BC;
          op.n = draw_size(big);
          Bytes b(op.n);
          for (auto& x : b) x = (u8)rnd64();
          op.peer = (int)i;
          op.off = t.s[i][i].size();
          for (size_t j = 0; j < w.n; j++) {
            t.s[i][j].insert(t.s[i][j].end(), b.begin(), b.end());
            t.fieldat[i][j].resize(t.s[i][j].size(), 0);
            t.total += op.n;
          }
        } else {
          op.n = draw_size(big);
          op.off = t.s[i][to].size();
          append_bytes(t, i, to, op.n);
        }
        t.send[i][r].push_back(op);
      }
    }
    if (big && !instrumented() && coin(WL, 0.01)) {
      // many messages in a row, or a very large one, on one channel
      size_t i = wl(w.n), to = wl(w.n);
      if (self || i != to) {
        size_t cnt = 1, sz = 1 + wl(4);
        if (coin(WL, 0.5)) cnt = coin(WL, 0.1) ? 65000 + wl(2000) : 100 + wl(6000);
        else sz = 500000 + wl(coin(WL, 0.1) ? 20000000 : 3000000);
        for (size_t x = 0; x < cnt; x++) {
          Op op{Op::SB, (int)to, sz, t.s[i][to].size()};
          append_bytes(t, i, to, sz);
          t.send[i][r].push_back(op);
        }
      }
    }
    for (size_t i = 0; i < w.n; i++)
      for (size_t j = 0; j < w.n; j++) t.round_end[i][j].push_back(t.s[i][j].size());
  }
  // receives
  for (size_t j = 0; j < w.n; j++) {
    std::vector<size_t> pos(w.n, 0);
    for (size_t r = 0; r < rounds; r++) {
      auto& out = t.recv[j][r];
      bool last = r + 1 == rounds;
      std::vector<int> open;
      std::vector<size_t> goal(w.n);
      for (size_t i = 0; i < w.n; i++) {
        size_t e = t.round_end[i][j][r];
        goal[i] = last ? e : pos[i] + (e > pos[i] ? wl(e - pos[i] + 1) : 0);
        if (!last && coin(WL, 0.5)) goal[i] = e;
        if (goal[i] > pos[i]) open.push_back((int)i);
      }
      while (!open.empty()) {
        size_t x = wl(open.size());
        int i = open[x];
        size_t left = goal[i] - pos[i];
        Op op{Op::RB, i, 0, pos[i]};
        auto& fa = t.fieldat[i][j];
        if (w.tcp && fa[pos[i]] && left >= 8 && !coin(WL, 0.2)) {
          size_t run = 0;
          while (run * 8 + 8 <= left && fa[pos[i] + run * 8]) run++;
          if (fa[pos[i]] == 2 && run >= t.shr && coin(WL, 0.5)) {
            op.k = Op::RS;
            op.n = 1 + wl(run / t.shr);
            pos[i] += op.n * t.shr * 8;
          } else {
            op.k = Op::RF;
            op.n = coin(WL, 0.5) ? run : 1 + wl(run);
            pos[i] += op.n * 8;
          }
        } else {
          op.n = coin(WL, 0.3) ? left : out.size() > 400 ? left : 1 + wl_small(left);
          if (coin(WL, 0.02)) op.n = 0;
          pos[i] += op.n;
        }
        out.push_back(op);
        if (pos[i] == goal[i]) open.erase(open.begin() + x);
      }
    }
  }
  return t;
}
void do_send(End* e, const Traffic& t, int me, const Op& op) {
  const Bytes& b = t.s[me][op.peer];
  switch (op.k) {
    case Op::SB: e->send(op.peer, b.data() + op.off, op.n); break;
    case Op::BC: e->bcast(b.data() + op.off, op.n); break;
    default: {
      std::vector<Field> v;
      size_t cnt = op.k == Op::SF ? op.n : op.n * t.shr;
      for (size_t x = 0; x < cnt; x++) v.push_back(fld(le64(b.data() + op.off + 8 * x)));
      if (op.k == Op::SF) e->sendf(op.peer, v);
      else {
        std::vector<Shr> s;
        for (size_t x = 0; x < op.n; x++) s.emplace_back(std::vector<Field>(v.begin() + x * t.shr, v.begin() + (x + 1) * t.shr));
        e->sends(op.peer, s);
      }
    }
  }
}
void check_fields(const std::vector<Field>& f, const Bytes& want, size_t off, int me, int peer) {
  Quiet q;
  for (size_t x = 0; x < f.size(); x++)
    if (val(f[x]) != le64(want.data() + off + 8 * x))
      fail("stream", "party %d: element at byte %zu of the stream from %d is %llu, sent was %llu", me, off + 8 * x, peer,
           (unsigned long long)val(f[x]), (unsigned long long)le64(want.data() + off + 8 * x));
}
void do_recv(End* e, const Traffic& t, int me, const Op& op) {
  const Bytes& want = t.s[op.peer][me];
  if (op.k == Op::RB) {
    Bytes b = e->recv(op.peer, op.n);
    SIM_CHECK(b.size() == op.n, "stream", "party %d asked %zu bytes and got %zu", me, op.n, b.size());
    compare(b, want, op.off, me, op.peer);
  } else if (op.k == Op::RF) {
    auto f = e->recvf(op.peer, op.n);
    SIM_CHECK(f.size() == op.n, "stream", "party %d asked %zu elements and got %zu", me, op.n, f.size());
    check_fields(f, want, op.off, me, op.peer);
  } else {
    auto s = e->recvs(op.peer, op.n);
    SIM_CHECK(s.size() == op.n, "stream", "party %d asked %zu shares and got %zu", me, op.n, s.size());
    std::vector<Field> f;
    for (auto& x : s) {
      SIM_CHECK(x.size() == t.shr, "stream", "a received share has %zu elements", x.size());
      for (auto& y : x) f.push_back(y);
    }
    check_fields(f, want, op.off, me, op.peer);
  }
}
void bound_cap(size_t total) {  // keep the number of simulated steps bounded
  while (total / cfg.cap > 3000) cfg.cap *= 8;
}
bool has_data(const Traffic& t) {
  for (size_t i = 0; i < t.n; i++) for (size_t j = 0; j < t.n; j++) if (i != j && !t.s[i][j].empty()) return true;
  return false;
}

// ================================================================== C01
void c01() {
  draw_cfg(F_ALL & ~F_REFUSE);
  World w;
  w.draw();
  bool two = coin(WL, 0.35);
  bool blockcheck = !two && coin(WL, 0.4);
  size_t rounds = blockcheck ? 1 : 1 + wl(4);
  Traffic t = plan(w, rounds, 1 + wl(6), coin(WL, 0.2), coin(WL, 0.8) ? 1.0 : 0.3);
  bound_cap(t.total);
  if (blockcheck && coin(FLT, 0.5)) cfg.cap = 1 + flt(64), bound_cap(t.total);
  Gate sent, got, closed;
  std::vector<int> pid(w.n);
  int closer = (int)wl(w.n);
  bool tail = coin(WL, 0.5);
  // In the tail variant party `closer` closes once everybody has everything;
  // whatever else is still readable from it was never sent.
  for (size_t i = 0; i < w.n; i++)
    pid[i] = spawn((int)i, w.host[i], i && coin(FLT, 0.2) ? start_delay() : 0, [&, i] {
      End* e = w.make((int)i);
      e->connect();
      if (two) {
        std::thread snd([&] { for (auto& r : t.send[i]) for (auto& op : r) do_send(e, t, (int)i, op); });
        for (auto& r : t.recv[i]) for (auto& op : r) do_recv(e, t, (int)i, op);
        snd.join();
      } else {
        for (size_t r = 0; r < rounds; r++) {
          for (auto& op : t.send[i][r]) do_send(e, t, (int)i, op);
          if (blockcheck) { sent.arrive(); sent.wait(w.n); }  // nobody receives before everybody has sent
          for (auto& op : t.recv[i][r]) do_recv(e, t, (int)i, op);
        }
      }
      got.arrive();
      got.wait(w.n);
      if (tail) {
        if ((int)i == closer) { e->close(); closed.arrive(); return; }
        closed.wait(1);
        bool bad = throws([&] { e->recv(closer, 1); });
        SIM_CHECK(bad, "stream", "party %zu received a byte from %d that was never sent", i, closer);
      }
    });
  auto o = run();
  if (!o.done && sent.n && sent.n < w.n && blockcheck) fail("send-blocks", "a send does not return while nobody receives; waiting: %s", o.who.c_str());
  expect_done(o, "exchange");
  for (size_t i = 0; i < w.n; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  if (has_data(t)) nontrivial();
  if (two) probe("two threads per party");
  if (blockcheck) probe("all sends before any receive");
  if (t.total > 70000) probe("more than 64 KiB in one run");
  if (tail) probe("read past the end");
  char b[200];
  snprintf(b, sizeof b, "%s, %zu rounds, %zu bytes, cap %llu, policy %d", w.str().c_str(), rounds, t.total, (unsigned long long)cfg.cap, cfg.policy);
  sample(b);
}
Reg r01("C01", "streams", c01, 300, V_BOTH);

// Volume: far more is sent to every peer than any buffer holds, in few or in very many
// messages, before anybody receives (or while everybody receives).
void c01_volume() {
  draw_cfg(F_ALL & ~F_REFUSE);
  World w;
  w.draw();
  if (w.tcp) w.n = 4; else if (w.n > 3) w.n = 2 + wl(2), w.host.assign(w.n, 0), w.file.clear();
  salt = rnd64();
  bool wait = coin(WL, 0.7), field = w.tcp && coin(WL, 0.3), many = coin(WL, 0.4);
  // per pair: number of messages and size of each
  struct Flow { size_t cnt, sz, total; };
  std::vector<std::vector<Flow>> f(w.n, std::vector<Flow>(w.n, {0, 0, 0}));
  size_t total = 0, most = 0;
  double share = coin(WL, 0.5) ? 1.0 : 0.4;
  for (size_t i = 0; i < w.n; i++)
    for (size_t j = 0; j < w.n; j++) {
      if (!coin(WL, share) || (i == j && !coin(WL, 0.2))) continue;
      Flow& x = f[i][j];
      if (many) x.cnt = (size_t)1000 << wl(w.n > 3 ? 4 : 6), x.cnt += wl(x.cnt), x.sz = 8 * (1 + wl(3));
      else {
        x.total = ((size_t)1 << (18 + wl(w.n > 3 ? 5 : 7))) + wl(1 << 18);
        x.sz = coin(WL, 0.3) ? x.total : 4096 + wl(coin(WL, 0.5) ? 60000 : 1000000);
        x.sz = (x.sz + 7) / 8 * 8;
        x.cnt = (x.total + x.sz - 1) / x.sz;
      }
      x.total = x.cnt * x.sz;
      total += x.total;
      most = std::max(most, x.total);
    }
  bound_cap(total);
  cfg.step_cap = 60000000;
  Gate sent, got;
  std::vector<int> pid(w.n);
  auto word = [](size_t i, size_t j, size_t k) { return content(salt + (u64)(i * 64 + j) * 0x100000000ull + k); };
  for (size_t i = 0; i < w.n; i++)
    pid[i] = spawn((int)i, w.host[i], i && coin(FLT, 0.2) ? start_delay() : 0, [&, i] {
      End* e = w.make((int)i);
      e->connect();
      auto send = [&] {
        std::vector<size_t> done(w.n, 0);
        for (bool more = true; more;) {  // the peers in turn
          more = false;
          for (size_t j = 0; j < w.n; j++) {
            const Flow& x = f[i][j];
            if (done[j] == x.cnt) continue;
            more = true;
            Bytes b(x.sz);
            std::vector<Field> v;
            for (size_t k = 0; k < x.sz / 8; k++) {
              u64 c = word(i, j, done[j] * (x.sz / 8) + k);
              if (field) v.push_back(fld(c & ((1ull << 61) - 2)));
              else memcpy(b.data() + 8 * k, &c, 8);
            }
            if (field) e->sendf((int)j, v); else e->send((int)j, b.data(), b.size());
            done[j]++;
          }
        }
      };
      auto recv = [&] {
        for (size_t j = 0; j < w.n; j++) {
          const Flow& x = f[j][i];
          size_t words = x.total / 8, at = 0;
          while (at < words) {
            size_t k = std::min(words - at, (size_t)(many ? 30000 : 100000));
            std::vector<u64> got;
            if (field) { for (auto& y : e->recvf((int)j, k)) got.push_back(val(y)); }
            else { Bytes b = e->recv((int)j, 8 * k); got.resize(b.size() / 8); memcpy(got.data(), b.data(), got.size() * 8); }
            SIM_CHECK(got.size() == k, "stream", "party %zu asked %zu words and got %zu", i, k, got.size());
            for (size_t y = 0; y < k; y++) {
              u64 want = word(j, i, at + y) & (field ? (1ull << 61) - 2 : ~0ull);
              if (got[y] != want)
                fail("stream", "party %zu: word %zu of %zu of the stream from %zu is %llx, sent was %llx", i, at + y, words, j,
                     (unsigned long long)got[y], (unsigned long long)want);
            }
            at += k;
          }
        }
      };
      if (wait) {
        send();
        sent.arrive();
        sent.wait(w.n);
        recv();
      } else {
        std::thread s(send);
        recv();
        s.join();
      }
      got.arrive();  // a process that ends takes what it has queued with it
      got.wait(w.n);
    });
  auto o = run();
  if (!o.done && wait && sent.n < w.n) fail("send-blocks", "a send does not return while nobody receives; waiting: %s", o.who.c_str());
  expect_done(o, "volume");
  for (size_t i = 0; i < w.n; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  if (total) nontrivial();
  probe("large volumes");
  if (wait && most > (4u << 20)) probe("more than 4 MiB queued for one peer");
  if (many) probe("very many messages queued");
  char b[200];
  snprintf(b, sizeof b, "%s, volume %zu bytes, at most %zu per pair, %s, cap %llu", w.str().c_str(), total, most, many ? "small messages" : "large messages", (unsigned long long)cfg.cap);
  sample(b);
}
Reg r01b("C01", "volume", c01_volume, 1, V_FAST);

u64 free_memory() {
  std::ifstream f("/proc/meminfo");
  std::string w;
  u64 v = 0;
  while (f >> w) if (w == "MemAvailable:") { f >> v; break; }
  return v << 10;
}
// One message of more than 2^31 or 2^32 bytes: sizes do not fit into smaller types.
void c01_huge(u64 base) {
  // needs about twice its size; not on a machine that is short of memory
  if (free_memory() < 3 * base + (1ull << 30)) { sample("not enough free memory for a message of more than 2 GiB"); return; }
  draw_cfg(F_ALL & ~F_REFUSE);
  cfg.p_shortread = cfg.p_shortwrite = cfg.p_split = 0;
  cfg.cap = 32 << 20;
  cfg.tap = false;
  World w;
  w.tcp = false;
  w.n = 2;
  w.host.assign(2, 0);
  const size_t tile = 1 << 20, size = base + 1 + wl(100000), extra = 1 + wl(1000);
  // the sender's and the receiver's memory is one megabyte, repeated
  auto tiled = [&](int prot) {
    int fd = memfd_create("tile", 0);
    if (fd < 0 || ftruncate(fd, tile)) fail("harness", "memfd");
    size_t all = (size + extra + tile - 1) / tile * tile;
    u8* p = (u8*)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) fail("harness", "mmap");
    for (size_t x = 0; x < all; x += tile)
      if (mmap(p + x, tile, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail("harness", "mmap");
    return p;
  };
  u8 *src = tiled(PROT_READ | PROT_WRITE), *dst = tiled(PROT_READ | PROT_WRITE);
  salt = rnd64();
  for (size_t x = 0; x < tile / 8; x++) { u64 c = content(salt + x); memcpy(src + 8 * x, &c, 8); }
  int from = (int)wl(2);
  bool cut = coin(WL, 0.5);
  Gate got;
  int pid[2];
  for (int i = 0; i < 2; i++)
    pid[i] = spawn(i, 0, 0, [&, i] {
      End* e = w.make(i);
      e->connect();
      auto& net = ((LibEnd*)e)->n;
      if (i == from) {
        net->SendTo(1 - i, src, size);
        net->SendTo(1 - i, src + size % tile, extra);
      } else {
        size_t all = size + extra, first = cut ? all / 3 : all;
        net->RecvFrom(1 - i, dst, first);
        if (first < all) net->RecvFrom(1 - i, dst + first, all - first);
        for (size_t x = 0; x < std::min(all, tile); x++)
          if (dst[x] != src[x]) fail("stream", "party %d: byte %zu modulo %zu of a message of %zu bytes is %02x, sent was %02x", i, x, tile, size, dst[x], src[x]);
      }
      got.arrive();
      got.wait(2);
    });
  auto o = run();
  expect_done(o, "huge message");
  for (int i = 0; i < 2; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %d ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  nontrivial();
  probe("a message of more than 2 GiB");
  char b[100];
  snprintf(b, sizeof b, "one message of %zu bytes, then one of %zu", size, extra);
  sample(b);
}
Reg r01c("C01", "huge-31", [] { c01_huge(1ull << 31); }, 0, V_FAST);
Reg r01d("C01", "huge-32", [] { c01_huge(1ull << 32); }, 0, V_FAST);

// ================================================================== C02
// After connecting, a party writes who it is and whom it believes to talk to
// into every channel, and reads the same from the other side.
Bytes token(u64 salt, int sess, int from, int to) {
  Bytes b(20);
  u64 c = content(salt + (u64)sess * 1000003 + (u64)from * 1009 + (u64)to);
  for (int i = 0; i < 8; i++) b[i] = (u8)(c >> (8 * i));
  b[8] = (u8)sess; b[9] = (u8)from; b[10] = (u8)to;
  return b;
}
void exchange_tokens(End* e, size_t n, u64 salt, int sess, int me) {
  for (size_t j = 0; j < n; j++) { Bytes b = token(salt, sess, me, (int)j); e->send((int)j, b.data(), b.size()); }
  for (size_t j = 0; j < n; j++) {
    Bytes b = e->recv((int)j, 20), want = token(salt, sess, (int)j, me);
    SIM_CHECK(b == want, "pairing", "session %d: channel %zu of party %d does not lead to channel %d of party %zu: it delivered %s (session %d, party %d, channel %d)",
              sess, j, me, me, j, hex(b.data(), b.size()).c_str(), b[8], b[9], b[10]);
  }
}
void c02() {
  draw_cfg(F_ALL);
  static const u64 until[] = {0, 1, 5, 20, 90};
  cfg.refuse_until = until[flt(5)] * 1000000000ull;
  cfg.p_refuse = std::max(cfg.p_refuse, coin(FLT, 0.3) ? 0.9 : 0.0);
  cfg.time_cap = 3 * 3600ull * 1000000000ull;
  std::vector<World> ws(1 + (coin(WL, 0.4) ? 1 : 0));
  ws[0].draw();
  bool shared_proc = false;
  if (ws.size() == 2) {
    ws[1].draw();
    if (ws[0].file.empty() || ws[1].file.empty() || coin(WL, 0.5)) {
      // same hosts, disjoint ports: n * n of them, starting at the base port
      bool overlap = ws[1].port < ws[0].port + (int)(ws[0].n * ws[0].n) && ws[0].port < ws[1].port + (int)(ws[1].n * ws[1].n);
      if (overlap || coin(WL, 0.3)) ws[1].port = coin(WL, 0.5) ? ws[0].port + (int)(ws[0].n * ws[0].n) : ws[0].port - (int)(ws[1].n * ws[1].n);
      shared_proc = coin(WL, 0.4);
    } else {
      for (auto& h : ws[1].host) h += 50;   // same ports, different hosts
      ws[1].file = conn_file(ws[1].host);
      ws[1].port = ws[0].port;
      probe("same ports on different hosts");
    }
    // all parties of a process live on one host
    if (shared_proc && (ws[0].n != ws[1].n || ws[0].host != ws[1].host)) shared_proc = false;
  }
  // the first and the last ports there are; a network that does not fit is refused when it is built
  bool edge = ws.size() == 1 && coin(WL, 0.03), refused = false;
  Gate built;
  if (edge) {
    int m = (int)(ws[0].n * ws[0].n);
    ws[0].port = coin(WL, 0.2) ? 1025 + (int)wl(3) : 65536 - m + (int)wl(m);
    if (coin(WL, 0.5)) ws[0].port = 65536 - (coin(WL, 0.5) ? m : (int)(1 + wl(2 * ws[0].n)));
  }
  // ports that the system also hands out as source ports: a client that is early can meet itself
  if (ws.size() == 1 && !edge && coin(WL, 0.05)) {
    ws[0].port = 32768 + (int)wl(28000);
    cfg.p_selfconn = coin(FLT, 0.5) ? 0.3 : 0.02;
  }
  u64 salt2 = rnd64();
  u64 last_start = 0, last_conn = 0;
  auto delay = [&] {
    static const u64 d[] = {0, 1000000, 299000000, 1000000000, 7000000000, 61000000000};
    if (!instrumented() && coin(FLT, 0.01)) { u64 r = (coin(FLT, 0.2) ? 3600 : 700) * 1000000000ull; last_start = std::max(last_start, r); return r; }
    u64 k = flt(6);
    u64 r = k ? d[k] + flt(1000) * 1000 : 0;
    last_start = std::max(last_start, r);
    return r;
  };
  std::vector<int> pids;
  Gate all;
  size_t total = 0;
  for (auto& w : ws) total += w.n;
  auto session = [&](int s, int i) {
    End* e = nullptr;
    try { e = ws[s].make(i); } catch (const std::exception&) { if (!edge) throw; refused = true; }
    if (edge) {
      built.arrive();
      built.wait(total);
      if (refused) return;
    }
    e->connect();
    { Quiet q; last_conn = std::max(last_conn, now_ns()); }
    exchange_tokens(e, ws[s].n, salt2, s, i);
    all.arrive();
    all.wait(total);
  };
  if (shared_proc) {
    probe("two networks in one process");
    bool th = coin(WL, 0.5);
    for (size_t i = 0; i < ws[0].n; i++)
      pids.push_back(spawn((int)i, ws[0].host[i], delay(), [&, i, th] {
        if (th) {
          std::thread t([&] { session(1, (int)i); });
          session(0, (int)i);
          t.join();
        } else {
          End* a = ws[0].make((int)i);
          End* b = ws[1].make((int)i);
          a->connect();
          b->connect();
          { Quiet q; last_conn = std::max(last_conn, now_ns()); }
          exchange_tokens(b, ws[1].n, salt2, 1, (int)i);
          exchange_tokens(a, ws[0].n, salt2, 0, (int)i);
          all.arrive();
          all.wait(ws[0].n);   // leaving earlier would drop what is still queued
        }
      }));
  } else {
    for (size_t s = 0; s < ws.size(); s++)
      for (size_t i = 0; i < ws[s].n; i++)
        pids.push_back(spawn((int)i, ws[s].host[i], delay(), [&, s, i] { session((int)s, (int)i); }));
  }
  expect_done(run(), "connecting");
  for (size_t i = 0; i < pids.size(); i++)
    SIM_CHECK(proc_exit(pids[i]) == Exit::Ok, "party-failed", "party process %zu ended with %s: %s", i, exit_name(proc_exit(pids[i])), proc_error(pids[i]).c_str());
  if (refused) {
    SIM_CHECK(ws[0].port >= 1025 && ws[0].port + (int)(ws[0].n * ws[0].n) > 65536, "refused", "a network of %zu parties at port %d could not be built", ws[0].n, ws[0].port);
    probe("networks beyond the last port refused");
    return;
  }
  if (edge) probe("networks at the first or the last port");
  u64 from = std::max(last_start, cfg.refuse_until == ~0ull ? 0 : cfg.refuse_until) + cfg.long_ns + delayed_ns();
  SIM_CHECK(last_conn <= from + 900000000000ull, "slow-connect", "connected %.1f s after the last party started", (last_conn - last_start) / 1e9);
  nontrivial();
  if (ws.size() == 2) probe("two networks");
  char b[300];
  snprintf(b, sizeof b, "%zu session(s): %s%s%s; last start at %.1f s, connected at %.1f s", ws.size(), ws[0].str().c_str(), ws.size() > 1 ? " | " : "", ws.size() > 1 ? ws[1].str().c_str() : "", last_start / 1e9, last_conn / 1e9);
  sample(b);
}
Reg r02("C02", "connect", c02, 1, V_FAST);

// ================================================================== C03
void c03() {
  draw_cfg(F_ALL & ~F_REFUSE);
  World w;
  w.draw();
  Traffic t = plan(w, 1, 1 + wl(8), coin(WL, 0.4), 1.0);
  if (coin(FLT, 0.5)) { static const u64 c[] = {1 << 20, 4096, 512, 64, 8, 1}; cfg.cap = c[flt(6)]; }
  bound_cap(t.total);
  std::vector<int> rank(w.n);
  for (size_t i = 0; i < w.n; i++) rank[i] = (int)i;
  for (size_t i = w.n; i > 1; i--) std::swap(rank[i - 1], rank[i - 1 - wl(i)]);
  std::vector<u64> pause(w.n), sndpause(w.n);
  std::vector<int> eof(w.n);
  for (size_t i = 0; i < w.n; i++) {
    static const u64 d[] = {0, 0, 1000000, 50000000, 3000000000};
    pause[i] = d[flt(5)];
    eof[i] = wl(2);
  }
  std::vector<int> pid(w.n);
  std::vector<int> closed(w.n, 0);
  Gate fin;
  for (size_t i = 0; i < w.n; i++)
    pid[i] = spawn((int)i, w.host[i], 0, [&, i] {
      End* e = w.make((int)i);
      e->connect();
      for (auto& op : t.send[i][0]) do_send(e, t, (int)i, op);
      size_t k = 0;
      for (auto& op : t.recv[i][0]) {
        if (pause[i] && k++ % 7 == 0) sleep_ns(pause[i]);
        do_recv(e, t, (int)i, op);
      }
      if (eof[i])
        for (size_t j = 0; j < w.n; j++)
          if (rank[j] < rank[i]) {
            bool bad = throws([&] { e->recv((int)j, 1); });
            SIM_CHECK(bad, "end-of-stream", "party %zu received a byte beyond the end of the stream of %zu", i, j);
          }
      e->close();
      { Quiet q; closed[i] = 1; }
    });
  auto o = run();
  if (!o.done) {
    std::string who;
    for (size_t i = 0; i < w.n; i++) if (!closed[i] && proc_exit(pid[i]) == Exit::Running) who += " " + std::to_string(i);
    fail("hang", "parties%s did not finish: %s", who.c_str(), o.who.c_str());
  }
  for (size_t i = 0; i < w.n; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  if (has_data(t)) nontrivial();
  char b[200];
  snprintf(b, sizeof b, "%s, %zu bytes, cap %llu, policy %d", w.str().c_str(), t.total, (unsigned long long)cfg.cap, cfg.policy);
  sample(b);
}
Reg r03("C03", "close", c03, 1, V_BOTH);

// ================================================================== C04
void c04() {
  draw_cfg(F_ALL & ~F_REFUSE);
  World w;
  w.draw();
  Traffic t = plan(w, 1, 1 + wl(8), coin(WL, 0.2), 1.0, true);
  if (coin(FLT, 0.4)) { static const u64 c[] = {1 << 20, 4096, 512, 64, 8}; cfg.cap = c[flt(5)]; }
  bound_cap(t.total);
  enum Mode { CRASH, ABORT, CLOSE, RST, WFAIL, AFAIL, NMODE };
  static const char* mn[] = {"crash", "abortive crash", "early close", "reset", "write error", "allocation failure"};
  Mode m = (Mode)flt(NMODE);
  int victim = (int)wl(w.n);
  bool ign = m == RST || m == WFAIL || coin(FLT, 0.5);
  u64 when = 1 + (coin(FLT, 0.5) ? flt(60) : flt(3000));
  u64 closeat = flt(t.send[victim][0].size() + 1);
  bool nap = coin(FLT, 0.5);
  static const int errs[] = {ECONNRESET, EPIPE, ENOBUFS, EIO, ETIMEDOUT};
  int werr = errs[flt(5)];
  u64 nth = 1 + flt(12);
  size_t extra = coin(WL, 0.3) ? 1 + wl(100) : 0;   // read past what is sent
  // survivors write to the victim only when the signal for it is ignored
  Gate conn, sentall;
  std::vector<int> pid(w.n);
  std::vector<size_t> lost(w.n, 0);
  bool hit = false;
  for (size_t i = 0; i < w.n; i++)
    pid[i] = spawn((int)i, w.host[i], 0, [&, i] {
      if (ign) ::signal(SIGPIPE, SIG_IGN);
      End* e = w.make((int)i);
      e->connect();
      conn.arrive();
      conn.wait(w.n);
      bool me = (int)i == victim;
      if (me) {
        Quiet q;
        if (m == CRASH || m == ABORT) plan_crash(self_pid(), proc_ops(self_pid()) + when, m == ABORT);
        if (m == WFAIL) plan_write_fail(self_pid(), writes(self_pid()) + nth, werr);
        if (m == AFAIL) plan_alloc_fail(self_pid(), allocs(self_pid()) + when);
      }
      size_t k = 0;
      for (auto& op : t.send[i][0]) {
        if (me && m == CLOSE && k++ == closeat) break;
        if (!me && !ign) continue;   // only the victim sends
        do_send(e, t, (int)i, op);
      }
      if (me && m == CLOSE) {
        fault(FK_EARLYCLOSE);
        { Quiet q; hit = true; }
        if (nap) sleep_ns(1000000);
        e->close();
        return;
      }
      if (m == RST && me) { Quiet q; hit = true; plan_rst(steps() + when, victim); }
      std::vector<size_t> pos(w.n, 0);
      std::vector<bool> dead(w.n, false);
      auto attempt = [&](int from, size_t n, auto&& f) {
        if (dead[from]) return;
        std::string what;
        if (throws(f, &what)) {
          Quiet q;
          dead[from] = true;
          lost[i]++;
          u64 arr = from == (int)i ? 0 : arrived(pid[from], pid[i]);
          if (m != AFAIL || !me)
            SIM_CHECK(pos[from] + n > arr, "data-withheld", "party %zu: asking %zu bytes of %d at position %zu failed (%s) although %llu bytes had arrived", i, n, from, pos[from], what.c_str(), (unsigned long long)arr);
          trace("party %zu: receive from %d fails: %s", i, from, what.c_str());
        } else pos[from] += n;
      };
      for (auto& op : t.recv[i][0]) {
        size_t nb = op.k == Op::RB ? op.n : op.k == Op::RF ? 8 * op.n : 8 * op.n * t.shr;
        if (!ign && op.peer != victim) continue;
        attempt(op.peer, nb, [&] { do_recv(e, t, (int)i, op); });
      }
      // a connection that ended stays ended
      for (size_t j = 0; j < w.n; j++)
        if (dead[j] && !(me && m == AFAIL)) SIM_CHECK(throws([&] { e->recv((int)j, 1); }), "made-up-data", "party %zu received a byte from %zu after the end of the connection was reported", i, j);
      if (extra && !me && victim != (int)i && !dead[victim] && (m == CRASH || m == ABORT || m == CLOSE))
        attempt(victim, extra, [&] { e->recv(victim, extra); SIM_CHECK(false, "made-up-data", "party %zu received %zu bytes from %d that were never sent", i, extra, victim); });
      if (me && (m == CRASH || m == ABORT)) { sleep_ns(1000000000ull); return; }
      e->close();
    });
  auto o = run();
  // an allocation failure inside the background thread of the victim may leave
  // the victim waiting; only what is received is claimed then
  if (!o.done && m != AFAIL) {
    bool vic = proc_exit(pid[victim]) == Exit::Running;
    fail("hang", "after %s of party %d: %s%s", mn[m], victim, o.who.c_str(), vic ? " (the victim itself included)" : "");
  }
  bool ended = false;
  for (size_t i = 0; i < w.n; i++) {
    Exit x = proc_exit(pid[i]);
    ended |= lost[i] > 0;
    if ((int)i == victim && (m == CRASH || m == ABORT)) { if (x == Exit::Crashed) hit = true; continue; }
    if (m == AFAIL && ((int)i == victim || !o.done)) { hit |= x == Exit::Error; continue; }
    SIM_CHECK(x == Exit::Ok, "party-failed", "after %s of party %d: party %zu ended with %s: %s", mn[m], victim, i, exit_name(x), proc_error(pid[i]).c_str());
  }
  // pairs of survivors are not affected
  if (ign && (m == CRASH || m == ABORT || m == CLOSE || m == WFAIL || (m == AFAIL && o.done)))
    for (size_t i = 0; i < w.n; i++)
      for (size_t j = 0; j < w.n; j++)
        if (i != j && (int)i != victim && (int)j != victim)
          SIM_CHECK(arrived(pid[i], pid[j]) == t.s[i][j].size(), "survivors", "after %s of party %d only %llu of %zu bytes from %zu reached %zu", mn[m], victim, (unsigned long long)arrived(pid[i], pid[j]), t.s[i][j].size(), i, j);
  if (ended || hit) nontrivial();
  if (ended) probe("a receive failed");
  if (m == WFAIL && ended) probe("lost by a write error");
  char b[200];
  snprintf(b, sizeof b, "%s, %zu bytes, %s of party %d, cap %llu, policy %d", w.str().c_str(), t.total, mn[m], victim, (unsigned long long)cfg.cap, cfg.policy);
  sample(b);
}
Reg r04("C04", "loss", c04, 1, V_BOTH);

// ================================================================== C05
void c05() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  World w;
  w.draw();
  bool crash = coin(WL, 0.5);
  size_t rounds = 1 + wl(crash ? 3 : 4) + (crash ? 0 : 1);
  if (coin(WL, 0.02)) rounds = 6 + wl(14);
  std::vector<Traffic> ts;
  size_t total = 0;
  for (size_t r = 0; r < rounds; r++) { ts.push_back(plan(w, 1, 3, false, 1.0)); total += ts.back().total; }
  bound_cap(total);
  u64 salt2 = rnd64();
  std::vector<int> destroy(w.n);
  for (auto& d : destroy) d = (int)wl(2);
  // Sessions in which some parties leave early: who comes later in the order
  // waits until the connection to an earlier one has failed, and may send to it
  // meanwhile, before it closes its own end.
  std::vector<char> early(rounds, 0);
  std::vector<std::vector<std::vector<std::pair<int, size_t>>>> wait_for(rounds, std::vector<std::vector<std::pair<int, size_t>>>(w.n));
  if (!crash)
    for (size_t r = 0; r < rounds; r++) {
      if (!coin(WL, 0.5)) continue;
      early[r] = 1;
      std::vector<int> order(w.n);
      for (size_t i = 0; i < w.n; i++) order[i] = (int)i;
      for (size_t i = w.n; i > 1; i--) std::swap(order[i - 1], order[wl(i)]);
      for (size_t a = 1; a < w.n; a++)
        for (size_t b = 0; b < a; b++)
          if (coin(WL, 0.4)) wait_for[r][order[a]].push_back({order[b], coin(WL, 0.5) ? 1 + wl(3000) : 0});
    }
  auto round = [&](size_t r, size_t i, bool keep) {
    End* e = w.make((int)i);
    e->connect();
    exchange_tokens(e, w.n, salt2, (int)r, (int)i);
    for (auto& op : ts[r].send[i][0]) do_send(e, ts[r], (int)i, op);
    for (auto& op : ts[r].recv[i][0]) do_recv(e, ts[r], (int)i, op);
    if (keep) return;
    for (auto& x : wait_for[r][i]) {
      if (x.second) e->send(x.first, Bytes(x.second, 7).data(), x.second);
      throws([&] { e->recv(x.first, x.second + 1); });
    }
    e->close();
    int f = open_fds(self_pid()), th = live_threads(self_pid());
    SIM_CHECK(f == 0, "socket-leak", "party %zu holds %d open sockets after Close (round %zu)", i, f, r);
    SIM_CHECK(th == 0, "thread-leak", "party %zu has %d running threads after Close (round %zu)", i, th, r);
    if (destroy[i]) delete e;
  };
  std::vector<int> pid(w.n);
  if (!crash) {
    for (size_t i = 0; i < w.n; i++)
      pid[i] = spawn((int)i, w.host[i], start_delay(), [&, i] {
        ::signal(SIGPIPE, SIG_IGN);
        for (size_t r = 0; r < rounds; r++) round(r, i, false);
      });
    expect_done(run(), "repeated sessions");
    for (size_t i = 0; i < w.n; i++)
      SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
    probe("sessions in the same processes", rounds);
    for (char x : early) if (x) probe("sessions with parties that leave early");
  } else {
    // earlier sessions end by crashes (or by processes that just exit)
    for (size_t r = 0; r < rounds; r++) {
      bool last = r + 1 == rounds;
      for (size_t i = 0; i < w.n; i++) {
        pid[i] = spawn((int)i, w.host[i], start_delay(), [&, i, r, last] {
          ::signal(SIGPIPE, SIG_IGN);
          round(r, i, !last);
        });
        if (!last && coin(FLT, 0.5)) plan_crash(pid[i], 1 + flt(400), flt(2));
      }
      // a session that lost a party may wait for it for ever: it is ended after
      // a while, and what it used up does not count for the last session
      cfg.time_cap = now_ns() + (last ? 3600ull : 100ull) * 1000000000ull;
      cfg.cap_follows = last;
      cfg.step_cap = steps() + 6000000;
      auto o = run();
      if (last) {
        expect_done(o, "session after a crash");
        for (size_t i = 0; i < w.n; i++)
          SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "after a crash: party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
      } else {
        for (size_t i = 0; i < w.n; i++) if (proc_exit(pid[i]) == Exit::Running || proc_exit(pid[i]) == Exit::NotStarted) kill_proc(pid[i], flt(2));
        fault(FK_RESTART);
      }
    }
  }
  nontrivial();
  char b[200];
  snprintf(b, sizeof b, "%s, %zu sessions %s", w.str().c_str(), rounds, crash ? "in fresh processes after crashes" : "in the same processes");
  sample(b);
}
Reg r05("C05", "again", c05, 1, V_FAST);

// ================================================================== C06
// The transport under the race detector: only races and memory errors count.
void c06_streams() { only_memory(); c01(); }
void c06_close() { only_memory(); c03(); }
void c06_loss() { only_memory(); c04(); }
// ================================================================== C11
// Any traffic, on one or two threads, and summaries printed at any moment in between.
void c11_traffic() {
  draw_cfg(F_ALL & ~F_REFUSE);
  World w;
  w.draw();
  if (!w.tcp) { w.tcp = true; w.n = 4 + wl(3); w.host.assign(w.n, 0); w.file.clear(); }
  size_t rounds = 1 + wl(4);
  bool two = coin(WL, 0.25);
  Traffic t = plan(w, rounds, 1 + wl(6), coin(WL, 0.3), coin(WL, 0.6) ? 1.0 : 0.3);
  bound_cap(t.total);
  std::vector<std::vector<u8>> snap(w.n, std::vector<u8>(rounds, 0));
  if (!two) for (auto& x : snap) for (auto& y : x) y = coin(WL, 0.3);
  std::vector<u8> after;
  for (size_t i = 0; i < w.n; i++) after.push_back(coin(WL, 0.5));
  Gate got;
  typedef std::pair<std::vector<u64>, std::vector<u64>> Counts;
  std::vector<std::vector<Counts>> want(w.n);
  std::vector<int> pid(w.n);
  for (size_t i = 0; i < w.n; i++)
    pid[i] = spawn((int)i, w.host[i], i && coin(FLT, 0.2) ? start_delay() : 0, [&, i] {
      End* e = w.make((int)i);
      Net& net = ((TcpEnd*)e)->n;
      e->connect();
      Counts c{std::vector<u64>(w.n, 0), std::vector<u64>(w.n, 0)};
      auto size = [&](const Op& op) { return op.k == Op::SB || op.k == Op::RB || op.k == Op::BC ? op.n : op.k == Op::SF || op.k == Op::RF ? 8 * op.n : 8 * t.shr * op.n; };
      auto print = [&] {
        { Quiet q; NoFaultAlloc a; want[i].push_back(c); }
        net->PrintCommunicationSummary();
      };
      auto send = [&](const Op& op) {
        do_send(e, t, (int)i, op);
        if (op.k == Op::BC) for (auto& x : c.first) x += op.n; else c.first[op.peer] += size(op);
      };
      auto recv = [&](const Op& op) { do_recv(e, t, (int)i, op); c.second[op.peer] += size(op); };
      if (two) {
        std::thread snd([&] { for (auto& r : t.send[i]) for (auto& op : r) send(op); });
        for (auto& r : t.recv[i]) for (auto& op : r) recv(op);
        snd.join();
      } else
        for (size_t r = 0; r < rounds; r++) {
          for (auto& op : t.send[i][r]) send(op);
          if (snap[i][r]) print();
          for (auto& op : t.recv[i][r]) recv(op);
        }
      got.arrive();
      got.wait(w.n);
      if (after[i]) print();
      e->close();
      print();
    });
  expect_done(run(), "traffic");
  u64 most = 0;
  for (size_t i = 0; i < w.n; i++) {
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
    std::string why;
    std::vector<Summary> all;
    SIM_CHECK(parse_summaries(proc_stdout(pid[i]), w.n, all, why), "summary", "party %zu: %s", i, why.c_str());
    SIM_CHECK(all.size() == want[i].size(), "summary", "party %zu: %zu summaries in the output, %zu were asked for", i, all.size(), want[i].size());
    for (size_t k = 0; k < all.size(); k++)
      for (size_t j = 0; j < w.n; j++)
        SIM_CHECK((u64)all[k].sent[j] == want[i][k].first[j] && (u64)all[k].got[j] == want[i][k].second[j], "summary-traffic",
                  "party %zu, summary %zu: %lld bytes sent to %zu and %lld received, really they are %llu and %llu", i, k,
                  (long long)all[k].sent[j], j, (long long)all[k].got[j], (unsigned long long)want[i][k].first[j], (unsigned long long)want[i][k].second[j]);
    for (size_t j = 0; j < w.n; j++) {
      most = std::max(most, want[i].back().first[j]);
      if (i != j) {
        u64 x = wire(pid[i], pid[j]).size();
        SIM_CHECK((u64)all.back().sent[j] == x, "wire", "party %zu reports %lld bytes sent to %zu, on the wire were %llu", i, (long long)all.back().sent[j], j, (unsigned long long)x);
      }
    }
  }
  if (has_data(t)) nontrivial();
  if (two) probe("summary after traffic on two threads");
  if (most >= 1000000) probe("a million bytes or more to one peer");
  char b[200];
  snprintf(b, sizeof b, "%s, %zu rounds, %zu bytes, cap %llu, policy %d", w.str().c_str(), rounds, t.total, (unsigned long long)cfg.cap, cfg.policy);
  sample(b);
}
Reg r11b("C11", "traffic", c11_traffic, 1, V_BOTH);

Reg r06a("C06", "transport", c06_streams, 1, V_INST);
Reg r06b("C06", "transport-close", c06_close, 1, V_INST);
Reg r06c("C06", "transport-loss", c06_loss, 1, V_INST);
}  // namespace
