// Helpers shared by the scenarios. Oracles here never use the repository's
// arithmetic: values are decoded from their serialised form and computed with
// 128-bit integers.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/core.h"
#include "frn.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/network.h"
#include "frn/tcp_network.h"

namespace sc {
using sim::u64;
using sim::u8;
using Bytes = std::vector<u8>;
using frn::Field;
using frn::Shr;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
using PRG = frn::lib::primitives::PRG;
static const u64 P = (1ull << 61) - 1;

inline u64 add(u64 a, u64 b) { u64 r = a + b; return r >= P ? r - P : r; }
inline u64 sub(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
inline u64 mul(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % P); }
inline u64 powm(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mul(a, a)) if (e & 1) r = mul(r, a); return r; }
inline u64 inv(u64 a) { return powm(a, P - 2); }
inline u64 le64(const u8* p) { u64 v; memcpy(&v, p, 8); return v; }
// value of a field element, read from its serialisation
inline u64 val(const Field& f) {
  u8 b[8];
  static_assert(Field::ByteSize() == 8, "the field serialises to 8 bytes");
  f.ToBytes(b);
  return le64(b);
}
inline Field fld(u64 v) {
  u8 b[8];
  memcpy(b, &v, 8);
  return Field::FromBytes(b);
}
inline std::vector<u64> vals(const std::vector<Field>& v) {
  std::vector<u64> r;
  r.reserve(v.size());
  for (auto& f : v) r.push_back(val(f));
  return r;
}
inline std::vector<Field> flds(const std::vector<u64>& v) {
  std::vector<Field> r;
  r.reserve(v.size());
  for (auto x : v) r.push_back(fld(x));
  return r;
}
inline u64 rndf() {  // field value with edge cases
  u64 r = sim::rnd64();
  switch (r % 16) {
    case 0: return 0;
    case 1: return 1;
    case 2: return P - 1;
    case 3: return (r >> 8) % 16;
    default: return sim::rnd64() % P;
  }
}

using Net = std::shared_ptr<frn::TcpNetwork>;
// Networks are kept alive for ever: the destructor of a network that was not
// closed waits for its sender threads, which is not what is being tested.
inline Net& make_net(unsigned id, size_t n, int port, bool log = false) {
  return *new Net(frn::TcpNetwork::CreateWithLocalParties(id, n, port, log));
}
using LibNet = frn::lib::net::Network;

inline std::string hex(const u8* p, size_t n) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < 16; i++) { snprintf(b, 4, "%02x", p[i]); s += b; }
  return s;
}
inline void compare(const Bytes& got, const Bytes& want, size_t off, int me, int peer) {
  sim::Quiet q;
  if (off + got.size() > want.size())
    sim::fail("stream", "party %d received %zu bytes from %d beyond what was sent", me, off + got.size() - want.size(), peer);
  for (size_t i = 0; i < got.size(); i++)
    if (got[i] != want[off + i])
      sim::fail("stream", "party %d: byte %zu of the stream from %d is %02x, sent was %02x", me, off + i, peer, got[i], want[off + i]);
}
template <class F>
bool throws(F&& f, std::string* what = nullptr) {
  try { f(); return false; }
  catch (const std::exception& e) { if (what) *what = e.what(); return true; }
  catch (...) { if (what) *what = "?"; return true; }
}
// start delays of the parties: mostly together, sometimes far apart
inline u64 start_delay() {
  static const u64 d[] = {0, 1000000, 250000000, 1000000000, 7000000000, 61000000000};
  if (!sim::coin(sim::FLT, 0.4)) return 0;
  u64 k = sim::flt(6);
  return k ? d[k] + sim::flt(1000) * 1000 : 0;
}
// the communication summaries in what a party printed
struct Summary { std::vector<sim::i64> sent, got; };
inline bool parse_summaries(const std::string& out, size_t n, std::vector<Summary>& all, std::string& why) {
  std::istringstream in(out);
  std::string l;
  bool on = false;
  auto fresh = [&] { all.emplace_back(); all.back().sent.assign(n, 0); all.back().got.assign(n, 0); };
  while (std::getline(in, l)) {
    unsigned long a;
    unsigned long long x, y;
    if (l.rfind("communication summary for", 0) == 0) { on = true; fresh(); continue; }
    if (!on) continue;
    auto& s = all.back();
    if (sscanf(l.c_str(), "sent/received to/from %lu: %llu/%llu bytes", &a, &x, &y) == 3 && a < n) { s.sent[a] += x; s.got[a] += y; }
    else if (sscanf(l.c_str(), "sent to %lu: %llu bytes", &a, &x) == 2 && a < n) s.sent[a] += x;
    else if (sscanf(l.c_str(), "received from %lu: %llu bytes", &a, &x) == 2 && a < n) s.got[a] += x;
    else if (l.find("bytes") != std::string::npos) { why = "cannot read: " + l; return false; }
  }
  if (!on) why = "no summary was printed";
  return on;
}
}  // namespace sc
