// C18: hashing a stream while it travels over a connection.
#include "util.h"
#include "frn/lib/primitives/hash.h"
using namespace sim;
using namespace sc;

namespace {
// Own SHA-3 (FIPS 202), from the definition; constants are generated.
struct Sha3 {
  static void f(u64 (&A)[5][5]) {
    static u64 rc[24];
    static int rot[5][5];
    static bool init = false;
    if (!init) {
      init = true;
      u8 l = 1;  // LFSR x^8+x^6+x^5+x^4+1
      for (int r = 0; r < 24; r++) {
        u64 c = 0;
        for (int j = 0; j <= 6; j++) {
          if (l & 1) c |= 1ull << ((1 << j) - 1);
          l = (u8)((l << 1) ^ ((l >> 7) * 0x71));
        }
        rc[r] = c;
      }
      int x = 1, y = 0;
      for (int t = 0; t < 24; t++) {
        rot[x][y] = (t + 1) * (t + 2) / 2 % 64;
        int z = (2 * x + 3 * y) % 5;
        x = y;
        y = z;
      }
    }
    auto rl = [](u64 v, int k) { return k ? v << k | v >> (64 - k) : v; };
    for (int r = 0; r < 24; r++) {
      u64 C[5], D[5], B[5][5];
      for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rl(C[(x + 1) % 5], 1);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rl(A[x][y], rot[x][y]);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
      A[0][0] ^= rc[r];
    }
  }
  static Bytes digest(int bits, const u8* p, size_t n) {
    size_t rate = (1600 - 2 * bits) / 8;
    Bytes m(p, p + n);
    m.push_back(6);
    while (m.size() % rate) m.push_back(0);
    m.back() |= 0x80;
    u64 A[5][5] = {};
    for (size_t o = 0; o < m.size(); o += rate) {
      for (size_t i = 0; i < rate / 8; i++) A[i % 5][i / 5] ^= le64(&m[o + 8 * i]);
      f(A);
    }
    Bytes d;
    for (size_t i = 0; d.size() < (size_t)bits / 8; i++)
      for (int b = 0; b < 8 && d.size() < (size_t)bits / 8; b++) d.push_back((u8)(A[i % 5][i / 5] >> (8 * b)));
    return d;
  }
};
struct Any {  // one of the three hash functions
  virtual ~Any() {}
  virtual void update(const u8* p, size_t n, bool vec) = 0;
  virtual Bytes fin() = 0;
  virtual Any* clone() = 0;
};
template <class T>
struct Of : Any {
  frn::lib::primitives::Hash<T> h;
  void update(const u8* p, size_t n, bool vec) override { if (vec) h.Update(Bytes(p, p + n)); else h.Update(p, n); }
  Bytes fin() override { auto d = h.Finalize(); return Bytes(d.begin(), d.end()); }
  Any* clone() override { return new Of<T>(*this); }
};
Any* make(int bits) {
  using namespace frn::lib::primitives;
  if (bits == 256) return new Of<SHA3_256>;
  if (bits == 384) return new Of<SHA3_384>;
  return new Of<SHA3_512>;
}
struct Cut { size_t n; bool vec; };
std::vector<Cut> cuts(size_t n) {
  std::vector<Cut> v;
  int mode = (int)wl(4);
  while (n) {
    size_t c = mode == 0 ? n : mode == 1 ? 1 + wl(std::min<size_t>(n, 12)) : mode == 2 ? 1 + wl(std::min<size_t>(n, 200)) : wl(4) ? 1 + wl_small(n) : 0;
    if (v.size() > 300) c = n;
    v.push_back({c, wl(2) == 1});
    n -= c;
  }
  if (coin(WL, 0.2)) v.push_back({0, true});
  return v;
}
size_t length() {
  static const size_t rate[] = {136, 104, 72};
  switch (wl(6)) {
    case 0: return wl(20);
    case 1: return wl(200);
    case 2: return rate[wl(3)] * (1 + wl(3)) + wl(18) - 9;
    case 3: return wl(2000);
    case 4: return rate[wl(3)] * wl(8);
    default: return coin(WL, 0.2) ? wl(100000) : wl(600);
  }
}
void c18() {
  draw_cfg(F_ALL);
  cfg.refuse_until = 20000000000ull;
  size_t n = 2 + wl(2);
  int port = 2000 + 100 * (int)wl(300);
  static const int kinds[] = {256, 384, 512};
  int bits = kinds[wl(3)];
  size_t streams = 1 + wl(2);
  size_t total = 0;
  std::vector<Bytes> data(n * n * 2);
  std::vector<std::vector<Cut>> sc(n * n * 2), rc(n * n * 2);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      for (size_t s = 0; s < streams; s++) {
        size_t x = (i * n + j) * 2 + s;
        Bytes& b = data[x];
        b.resize(length());
        bool zero = coin(WL, 0.1);
        for (auto& v : b) v = zero ? 0 : (u8)rnd64();
        sc[x] = cuts(b.size());
        rc[x] = cuts(b.size());
        total += b.size();
      }
  while (total * n / cfg.cap > 3000) cfg.cap *= 8;
  std::vector<int> pid(n);
  for (size_t me = 0; me < n; me++)
    pid[me] = spawn((int)me, 0, me && coin(FLT, 0.2) ? start_delay() : 0, [&, me] {
      auto& net = *new std::shared_ptr<LibNet>;
      LibNet::Builder b;
      b.LocalPeerId((unsigned)me).TransportType(LibNet::TransportType::eTcp).Size(n).BasePort(port).AllPartiesLocal();
      net = b.BuildShared();
      net->Connect();
      for (size_t s = 0; s < streams; s++) {
        // one hash per peer, fed in turns while sending
        std::vector<Any*> h(n);
        std::vector<size_t> pos(n), k(n);
        for (auto& x : h) x = make(bits);
        for (bool more = true; more;) {
          more = false;
          for (size_t j = 0; j < n; j++) {
            auto& v = sc[(me * n + j) * 2 + s];
            auto& d = data[(me * n + j) * 2 + s];
            if (k[j] == v.size()) continue;
            more = true;
            Cut c = v[k[j]++];
            h[j]->update(d.data() + pos[j], c.n, c.vec);
            net->SendTo((unsigned)j, d.data() + pos[j], c.n);
            pos[j] += c.n;
          }
        }
        for (size_t j = 0; j < n; j++) {
          Bytes d = h[j]->fin();
          net->SendTo((unsigned)j, d.data(), d.size());
          auto& src = data[(me * n + j) * 2 + s];
          Quiet q;
          Bytes want = Sha3::digest(bits, src.data(), src.size());
          SIM_CHECK(d == want, "digest", "SHA3-%d of %zu bytes in %zu updates is %s..., the sender computed %s...", bits, src.size(), sc[(me * n + j) * 2 + s].size(), hex(want.data(), 16).c_str(), hex(d.data(), 16).c_str());
        }
        for (size_t i = 0; i < n; i++) {
          size_t x = (i * n + me) * 2 + s;
          Any *a = make(bits), *fork = nullptr;
          Bytes got;
          size_t c = 0, at = rc[x].size() / 2;
          for (auto& u : rc[x]) {
            if (c++ == at) fork = a->clone();
            Bytes f(u.n);
            if (u.n) net->RecvFrom((unsigned)i, f.data(), u.n);
            a->update(f.data(), f.size(), u.vec);
            if (fork) fork->update(f.data(), f.size(), !u.vec);
            got.insert(got.end(), f.begin(), f.end());
          }
          Bytes sd((size_t)bits / 8);
          net->RecvFrom((unsigned)i, sd.data(), sd.size());
          Bytes d = a->fin();
          Quiet q;
          Bytes want = Sha3::digest(bits, got.data(), got.size());
          SIM_CHECK(d == want, "digest", "SHA3-%d of %zu bytes in %zu updates is %s..., the receiver computed %s...", bits, got.size(), rc[x].size(), hex(want.data(), 16).c_str(), hex(d.data(), 16).c_str());
          SIM_CHECK(d == sd, "digest", "sender and receiver of %zu bytes computed different digests", got.size());
          if (fork) SIM_CHECK(fork->fin() == want, "digest", "a copy of the hash made in the middle of the stream ends with another digest");
          if (!got.empty()) {  // one altered byte
            Bytes bad = got;
            size_t y = rnd64() % bad.size();
            bad[y] ^= (u8)(1 + rnd64() % 255);
            Any* m = make(bits);
            size_t o = 0;
            for (auto& u : rc[x]) { m->update(bad.data() + o, u.n, u.vec); o += u.n; }
            SIM_CHECK(m->fin() != d, "digest", "altering byte %zu of %zu leaves the digest unchanged", y, bad.size());
          }
        }
      }
      net->Close();
    });
  expect_done(run(), "hashed streams");
  for (size_t i = 0; i < n; i++)
    SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "party %zu ended with %s: %s", i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str());
  if (total) nontrivial();
  probe("streams hashed", n * n * streams);
  char b[160];
  snprintf(b, sizeof b, "SHA3-%d, %zu parties, %zu streams each way, %zu bytes, policy %d", bits, n, streams, total, cfg.policy);
  sample(b);
}
Reg r18("C18", "stream", c18, 1, V_FAST);
}  // namespace
