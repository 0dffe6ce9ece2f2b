// Distributed computations: programs, their execution by the real protocol
// objects, and the oracle (an own implementation of replicated sharing and of
// the arithmetic modulo 2^61-1).
#pragma once
#include <algorithm>
#include <array>

#include "util.h"

namespace mpc {
using namespace sim;
using namespace sc;
using frn::ShrManipulator;
using Vec = std::vector<u64>;

// ---------------------------------------------------------------- own sharing
// Pieces are indexed by the sets of n-t parties in lexicographic order; a party
// holds the pieces of the sets it belongs to, in that order.
struct Layout {
  size_t n, t;
  std::vector<std::vector<int>> comb;   // sets
  std::vector<std::vector<int>> idx;    // [party] pieces held
  Layout(size_t n, size_t t) : n(n), t(t), idx(n) {
    std::vector<int> c(n - t);
    for (size_t i = 0; i < c.size(); i++) c[i] = (int)i;
    for (;;) {
      for (int p : c) idx[p].push_back((int)comb.size());
      comb.push_back(c);
      int i = (int)c.size() - 1;
      while (i >= 0 && c[i] == (int)(t + i)) i--;
      if (i < 0) break;
      c[i]++;
      for (size_t j = i + 1; j < c.size(); j++) c[j] = c[j - 1] + 1;
    }
  }
  size_t pieces() const { return comb.size(); }
  size_t share() const { return idx[0].size(); }
};
inline const Layout& layout(size_t n, size_t t) {
  static std::map<std::pair<size_t, size_t>, Layout*> m;
  auto*& l = m[{n, t}];
  if (!l) l = new Layout(n, t);
  return *l;
}
// random sharing of a value: [party] pieces
inline std::vector<Vec> deal(const Layout& l, u64 v) {
  Vec a(l.pieces());
  u64 s = 0;
  bool edgy = rnd64() % 4 == 0;
  for (size_t i = 0; i + 1 < a.size(); i++) { a[i] = edgy ? rndf() : rnd64() % P; s = add(s, a[i]); }
  a.back() = sub(v, s);
  std::vector<Vec> r(l.n);
  for (size_t p = 0; p < l.n; p++) for (int g : l.idx[p]) r[p].push_back(a[g]);
  return r;
}
// checks that all copies agree and returns the value
inline bool join(const Layout& l, const std::vector<const Vec*>& s, u64& v, std::string& why) {
  Vec a(l.pieces());
  std::vector<int> from(l.pieces(), -1);
  char b[200];
  for (size_t p = 0; p < l.n; p++) {
    if (s[p]->size() != l.share()) { snprintf(b, sizeof b, "party %zu has a share of %zu pieces instead of %zu", p, s[p]->size(), l.share()); why = b; return false; }
    for (size_t i = 0; i < l.share(); i++) {
      int g = l.idx[p][i];
      u64 x = (*s[p])[i];
      if (from[g] < 0) { from[g] = (int)p; a[g] = x; }
      else if (a[g] != x) {
        snprintf(b, sizeof b, "parties %d and %zu disagree about piece %d (%llu, %llu)", from[g], p, g, (unsigned long long)a[g], (unsigned long long)x);
        why = b;
        return false;
      }
    }
  }
  v = 0;
  for (u64 x : a) v = add(v, x);
  return true;
}

// ---------------------------------------------------------------- repository objects
inline const Rep& rep(size_t n, size_t t) {
  static std::map<std::pair<size_t, size_t>, Rep*> m;
  auto*& r = m[{n, t}];
  if (!r) r = new Rep(n, t);
  return *r;
}
inline const ShrManipulator& man(size_t id, size_t n, size_t d) {
  static std::map<std::array<size_t, 3>, ShrManipulator*> m;
  auto*& r = m[{id, n, d}];
  if (!r) r = new ShrManipulator(id, d, n);
  return *r;
}
inline size_t dmax(size_t n) { return (n - 1) / 3; }

using Seed = std::array<u8, 16>;
inline Seed rnd_seed() {
  Seed s;
  u64 a = rnd64(), b = rnd64();
  memcpy(s.data(), &a, 8);
  memcpy(s.data() + 8, &b, 8);
  return s;
}
struct Keys {  // correlated randomness of the multiplications
  bool fresh = false;
  std::vector<std::vector<Seed>> k;  // [party in U][piece]
  void draw(size_t n, size_t d, bool f) {
    fresh = f;
    if (!f) return;
    k.resize(2 * d + 1);
    for (auto& v : k) for (size_t g = 0; g < layout(n, d).pieces(); g++) v.push_back(rnd_seed());
  }
  frn::Correlator make(size_t id, size_t n, size_t d) const {
    frn::Correlator c((unsigned)id, rep(n, d));
    set(c, id, n, d, 0);
    return c;
  }
  // give an object these keys; the order of the parts is free
  void set(frn::Correlator& c, size_t id, size_t n, size_t d, unsigned order) const {
    if (!fresh) return;
    auto prgs = [&](size_t u, bool all) {
      std::vector<PRG> v;
      if (all) for (auto& s : k[u]) v.emplace_back(s.data());
      else for (int g : layout(n, d).idx[id]) v.emplace_back(k[u][g].data());
      return v;
    };
    auto own = [&] { if (id < k.size()) c.SetOwnPRGs(prgs(id, true)); };
    if (!(order & 1)) own();
    for (size_t x = 0; x < k.size(); x++) {
      size_t u = order & 2 ? k.size() - 1 - x : x;
      c.SetRandPRGs(prgs(u, false), (unsigned)u);
    }
    if (order & 1) own();
  }
};

// ---------------------------------------------------------------- programs
struct Lin { int op; size_t a, b; u64 c; };
struct Act { int who; size_t n; bool vec; };
struct Step {
  enum K { PRE, IN, LIN, MUL, OPEN, CHECK } k;
  Vec pre;                                    // PRE: values
  std::vector<std::vector<frn::Shr>> dealt;   // PRE: [party][value]
  std::vector<Vec> contrib;                   // IN: [party] values
  std::vector<std::vector<Act>> acts;         // IN: [party] announcements
  std::vector<Lin> lin;                       // LIN
  std::vector<std::pair<size_t, size_t>> mul; // MUL: pool indices
  std::vector<std::vector<size_t>> groups;    // MUL: [party] 2*size + (vector overload)
  size_t obj = 0;                             // MUL, IN: protocol object that is used
  std::vector<size_t> open;                   // OPEN: pool indices
  std::vector<bool> recv;                     // OPEN: who receives
  bool detect = false;                        // OPEN: error detection
  std::vector<std::vector<int>> sord, rord;   // OPEN: order of peers
};
struct Program {
  size_t n = 4, d = 1;
  int port = 9000;
  Keys keys;
  std::vector<Seed> inseed;   // input setup
  bool log = false;           // with the logger of the network
  size_t bulk = 0;            // rarely: one step with that many operations
  bool in_default = false;    // every party uses the default generator
  std::vector<Step> st;
  Vec clear;                  // value of every pool entry
  std::vector<u64> opened;    // expected opened values, in order
  size_t mults = 0, inputs = 0, opens = 0;
  bool summary = false, gate = false;
  size_t blank = SIZE_MAX;    // pool entry whose pieces are all zero
  size_t live = 0;            // with it: how many products may have other factors
  bool objs = false;          // two input objects; two multiplication objects that share the record
  std::vector<bool> snap;     // [step] print a summary afterwards
};
struct Out {
  std::vector<Vec> pool;
  Vec opened;
  bool done = false;
  size_t step = 0;
  std::string stage = "starting";
  std::shared_ptr<frn::CheckData> cd;
  std::vector<std::pair<Vec, Vec>> snaps;   // bytes sent and received at each summary
};
struct Book { Quiet q; NoFaultAlloc n; };  // bookkeeping inside a process

inline void draw_size(Program& p, bool anyd, bool big = false) {
  static const size_t fast[] = {4, 5, 7, 6, 4, 7, 8, 4};
  static const size_t inst[] = {4, 4, 5, 4, 7, 4};
  if (instrumented()) p.n = inst[wl(6)];
  else if (thorough() || big) { static const size_t t[] = {4, 5, 7, 6, 4, 7, 8, 9, 10, 4}; p.n = t[wl(10)]; }
  else p.n = fast[wl(8)];
  if (!instrumented() && coin(WL, thorough() ? 0.08 : 0.03)) p.n = 9 + wl(4);
  p.log = coin(WL, 0.1);
  p.d = dmax(p.n);
  if (anyd && p.d > 1 && coin(WL, 0.25)) p.d = 1 + wl(p.d - 1);
  p.port = 2000 + 100 * (int)wl(300);
}
// rarely a step that is far larger than what is otherwise run
inline void draw_bulk(Program& p, size_t huge = 65536) {
  if (instrumented() || p.n > 5 || !coin(WL, 0.004)) return;
  p.bulk = huge && coin(WL, 0.12) ? huge - 50 + wl(500) : 1000 + wl(8000);
}
inline void draw_keys(Program& p, bool must_fresh = false) {
  p.keys.draw(p.n, p.d, must_fresh || !coin(WL, 0.25));
  p.in_default = !must_fresh && coin(WL, 0.1);
  for (size_t i = 0; i < p.n; i++) p.inseed.push_back(rnd_seed());
}
inline size_t pick(const Program& p) {  // pool index, recent ones more likely
  size_t n = p.clear.size();
  if (coin(WL, 0.4)) return n - 1 - wl_small(n);
  return wl(n);
}
inline void add_pre(Program& p, size_t k) {
  Step s;
  s.k = Step::PRE;
  s.dealt.resize(p.n);
  for (size_t i = 0; i < k; i++) {
    u64 v = rndf();
    s.pre.push_back(v);
    p.clear.push_back(v);
    auto sh = deal(layout(p.n, p.d), v);
    for (size_t q = 0; q < p.n; q++) s.dealt[q].push_back(flds(sh[q]));
  }
  p.st.push_back(std::move(s));
}
// a sharing of zero by zero pieces: its products have no message
inline void add_blank(Program& p, size_t live) {
  Step s;
  s.k = Step::PRE;
  s.pre.push_back(0);
  p.blank = p.clear.size();
  p.live = live;
  p.clear.push_back(0);
  s.dealt.resize(p.n);
  for (size_t q = 0; q < p.n; q++) s.dealt[q].push_back(flds(Vec(layout(p.n, p.d).share(), 0)));
  p.st.push_back(std::move(s));
}
inline size_t draw_count(size_t big) {
  switch (wl(7)) {
    case 0: return 1;
    case 1: return 0;
    case 2: case 3: return 1 + wl(4);
    case 4: return 2 + wl(10);
    case 5: return 1 + wl(3);
    default:
      if (big >= 100 && coin(WL, 0.3)) {
        static const size_t edge[] = {16, 32, 64, 128, 256, 512, 1024, 500, 1000};
        return edge[coin(WL, 0.7) ? wl(6) : wl(9)] + (coin(WL, 0.7) ? 0 : wl(3)) - (coin(WL, 0.8) ? 0 : 1);
      }
      return big ? 1 + wl(big) : 3;
  }
}
inline void add_in(Program& p, size_t big) {
  Step s;
  s.k = Step::IN;
  s.contrib.resize(p.n);
  s.acts.resize(p.n);
  int mode = (int)wl(3);
  size_t only = wl(p.n);
  for (size_t i = 0; i < p.n; i++) {
    size_t k = mode == 1 ? (i == only ? 1 + draw_count(big) : 0) : draw_count(big);
    if (mode == 2 && coin(WL, 0.5)) k = 0;
    if (p.bulk && i == only) k = p.bulk;
    for (size_t x = 0; x < k; x++) { u64 v = rndf(); s.contrib[i].push_back(v); p.clear.push_back(v); p.inputs++; }
  }
  if (p.clear.empty()) { s.contrib[only].push_back(rndf()); p.clear.push_back(s.contrib[only][0]); p.inputs++; }
  p.bulk = 0;
  if (p.objs) s.obj = wl(2);
  bool mix = coin(WL, 0.6);
  for (size_t i = 0; i < p.n; i++) {
    auto& a = s.acts[i];
    for (size_t j = 0; j < p.n; j++) {
      size_t left = s.contrib[j].size();
      while (left) {
        size_t c = mix && coin(WL, 0.6) ? 1 + wl(left) : left;
        bool vec = c > 1 ? true : coin(WL, 0.5);
        a.push_back({(int)j, c, vec});
        left -= c;
      }
    }
    if (mix) for (size_t x = a.size(); x > 1; x--) std::swap(a[x - 1], a[x - 1 - wl(x)]);
  }
  p.st.push_back(std::move(s));
}
inline void add_lin(Program& p, size_t k) {
  Step s;
  s.k = Step::LIN;
  for (size_t i = 0; i < k; i++) {
    Lin l{(int)wl(8), pick(p), pick(p), rndf()};
    u64 a = p.clear[l.a], b = p.clear[l.b], c = l.c, r = 0;
    switch (l.op) {
      case 0: r = add(a, b); break;
      case 1: r = sub(a, b); break;
      case 2: case 3: r = add(a, c); break;
      case 4: r = sub(a, c); break;
      case 5: r = sub(c, a); break;
      default: r = mul(a, c);
    }
    p.clear.push_back(r);
    s.lin.push_back(l);
  }
  p.st.push_back(std::move(s));
}
inline void add_mul(Program& p, size_t k) {
  Step s;
  s.k = Step::MUL;
  size_t base = p.clear.size();
  for (size_t i = 0; i < k; i++) {
    if (k >= 1500) { s.mul.push_back({rnd64() % base, rnd64() % base}); continue; }
    size_t a = coin(WL, 0.4) ? base - 1 - wl_small(base) : wl(base);
    size_t b = coin(WL, 0.15) ? a : wl(base);
    s.mul.push_back({a, b});
  }
  if (p.blank != SIZE_MAX && k) {  // a few of them stay: at the ends, around powers of two, anywhere
    std::vector<bool> keep(k, false);
    size_t m = std::min<size_t>(p.live, 2 + wl(4));
    p.live -= m;
    while (m--) {
      size_t x = 0;
      switch (wl(4)) {
        case 0: x = wl(k); break;
        case 1: x = coin(WL, 0.6) ? 0 : k - 1; break;
        default: x = ((size_t)1 << wl(17)) + wl(3) - 1;
      }
      keep[x % k] = true;
    }
    for (size_t i = 0; i < k; i++) if (!keep[i]) s.mul[i].first = p.blank;
  }
  if (p.objs) s.obj = wl(2);
  for (auto& m : s.mul) p.clear.push_back(mul(p.clear[m.first], p.clear[m.second]));
  bool same = coin(WL, 0.5);
  s.groups.resize(p.n);
  for (size_t i = 0; i < p.n; i++) {
    if (i && same) { s.groups[i] = s.groups[0]; continue; }
    size_t left = k;
    if (coin(WL, 0.1)) s.groups[i].push_back(1);  // an empty vector
    while (left) {
      size_t c = coin(WL, 0.5) ? left : 1 + wl(std::min<size_t>(left, 5));
      bool vec = c > 1 || coin(WL, 0.3);
      s.groups[i].push_back(2 * c + vec);
      left -= c;
    }
  }
  p.mults += k;
  p.st.push_back(std::move(s));
}
inline void add_open(Program& p, size_t k, bool last) {
  Step s;
  s.k = Step::OPEN;
  for (size_t i = 0; i < k; i++) { s.open.push_back(last && i == 0 ? p.clear.size() - 1 : pick(p)); p.opened.push_back(p.clear[s.open.back()]); }
  s.recv.assign(p.n, true);
  if (coin(WL, 0.3)) for (size_t i = 0; i < p.n; i++) s.recv[i] = wl(2) == 0;
  s.detect = coin(WL, 0.5);
  s.sord.resize(p.n);
  s.rord.resize(p.n);
  bool perm = coin(WL, 0.5);
  for (auto* o : {&s.sord, &s.rord})
    for (auto& v : *o) {
      for (size_t i = 0; i < p.n; i++) v.push_back((int)i);
      if (perm) for (size_t x = p.n; x > 1; x--) std::swap(v[x - 1], v[x - 1 - wl(x)]);
    }
  p.opens += k;
  p.st.push_back(std::move(s));
}
inline void add_check(Program& p) {
  Step s;
  s.k = Step::CHECK;
  p.st.push_back(std::move(s));
}

// ---------------------------------------------------------------- recording network
constexpr size_t SETUP = (size_t)-2;   // as step: the input setup
struct Sent { size_t step; int to; char kind; Vec v; Bytes b; };
class RecNet : public frn::Network {
 public:
  Net net;
  size_t step = 0;
  std::vector<Sent> log;
  Vec sent, got;  // bytes per peer
  RecNet(unsigned id, size_t n, Net& x) : frn::Network(id, n), net(x), sent(n), got(n) {}
  // everything sent to a party in a step, as bytes or as words
  Bytes stream(size_t st, int to) const {
    Bytes r;
    for (auto& e : log) {
      if (e.step != st || e.to != to) continue;
      r.insert(r.end(), e.b.begin(), e.b.end());
      for (u64 v : e.v) for (int k = 0; k < 8; k++) r.push_back((u8)(v >> (8 * k)));
    }
    return r;
  }
  static Vec words(const Bytes& b) {
    Vec r(b.size() / 8);
    for (size_t i = 0; i < r.size(); i++) memcpy(&r[i], &b[8 * i], 8);
    return r;
  }
  void note(int to, char kind, Vec v, Bytes b, size_t nb) {
    sent[to] += nb;
    log.push_back({step, to, kind, std::move(v), std::move(b)});
  }
  void Send(unsigned id, const std::vector<Field>& v) override {
    { Book k; note((int)id, 'f', vals(v), {}, 8 * v.size()); }
    net->Send(id, v);
  }
  void SendShares(unsigned id, const std::vector<Shr>& v) override {
    { Book k; Vec x; for (auto& s : v) for (auto& f : s) x.push_back(val(f)); size_t nb = 8 * x.size(); note((int)id, 's', std::move(x), {}, nb); }
    net->SendShares(id, v);
  }
  void SendBytes(unsigned id, const std::vector<unsigned char>& b) override {
    { Book k; note((int)id, 'b', {}, b, b.size()); }
    net->SendBytes(id, b);
  }
  std::vector<Field> Recv(unsigned id, std::size_t n) override {
    auto r = net->Recv(id, n);
    Book k;
    got[id] += 8 * r.size();
    return r;
  }
  std::vector<Shr> RecvShares(unsigned id, std::size_t n) override {
    auto r = net->RecvShares(id, n);
    Book k;
    for (auto& s : r) got[id] += 8 * s.size();
    return r;
  }
  std::vector<unsigned char> RecvBytes(unsigned id, std::size_t n) override {
    auto r = net->RecvBytes(id, n);
    Book k;
    got[id] += r.size();
    return r;
  }
};

// ---------------------------------------------------------------- execution by one party
struct Party {
  const Program& p;
  size_t id;
  Out& o;
  std::shared_ptr<frn::Network> net;
  RecNet* rec = nullptr;
  std::vector<frn::Shr> pool;
  std::shared_ptr<frn::CheckData> cd;
  frn::Mult* mults[2] = {};
  frn::InputSetup* setup = nullptr;
  frn::Input* inputs[2] = {};
  std::vector<std::vector<Vec>> rounds[2];  // input shares of earlier rounds

  Party(const Program& p, size_t id, Out& o) : p(p), id(id), o(o) {
    Book b;
    for (auto& e : rounds) e.resize(p.n);
  }
  void push(const frn::Shr& s) {
    pool.push_back(s);
    Book b;
    o.pool.push_back(vals(s));
  }
  void in(const Step& s) {
    frn::Input*& input = inputs[s.obj];
    auto& earlier = rounds[s.obj];
    if (!input) {  // a second object has a setup of its own
      PRG prg = p.in_default ? PRG() : PRG(p.inseed[id].data());
      if (!setup) setup = new frn::InputSetup(net, rep(p.n, p.d), prg);
      size_t at = rec ? rec->step : 0;
      if (rec) rec->step = SETUP;
      auto corr = setup->Run();
      if (rec) rec->step = at;
      input = new frn::Input(net, man(id, p.n, p.d), corr);
    }
    size_t own = 0;
    for (auto& a : s.acts[id]) {
      if (a.who == (int)id) {
        if (a.vec) input->Prepare(flds(Vec(s.contrib[id].begin() + own, s.contrib[id].begin() + own + a.n)));
        else input->Prepare(fld(s.contrib[id][own]));
        own += a.n;
      } else if (a.vec) input->PrepareToReceive((unsigned)a.who, a.n);
      else input->PrepareToReceive((unsigned)a.who);
    }
    auto r = input->Run();
    SIM_CHECK(r.size() == p.n, "output-count", "party %zu: the input protocol returned shares of %zu parties instead of %zu", id, r.size(), p.n);
    for (size_t j = 0; j < p.n; j++) {
      size_t k = s.contrib[j].size(), before = earlier[j].size();
      SIM_CHECK(r[j].size() == k || r[j].size() == k + before, "output-count", "party %zu obtained %zu shares of inputs of party %zu, which contributed %zu (%zu before)", id, r[j].size(), j, k, before);
      size_t off = r[j].size() - k;
      Book b;
      for (size_t x = 0; x < off; x++)
        SIM_CHECK(vals(r[j][x]) == earlier[j][x], "input-share", "party %zu: the share of input %zu of party %zu changed when inputs were added", id, x, j);
      for (size_t x = off; x < r[j].size(); x++) { pool.push_back(r[j][x]); o.pool.push_back(vals(r[j][x])); earlier[j].push_back(vals(r[j][x])); }
    }
  }
  void lin(const Step& s) {
    ShrManipulator m = man(id, p.n, p.d);
    for (auto& l : s.lin) {
      Shr r;
      Field c = fld(l.c);
      const Shr &a = pool[l.a], &b = pool[l.b];
      switch (l.op) {
        case 0: r = m.Add(a, b); break;
        case 1: r = m.Subtract(a, b); break;
        case 2: r = m.AddConstant(a, c); break;
        case 3: r = m.AddConstant(c, a); break;
        case 4: r = m.SubtractConstant(a, c); break;
        case 5: r = m.SubtractConstant(c, a); break;
        case 6: r = m.MultiplyConstant(a, c); break;
        default: r = m.MultiplyConstant(c, a);
      }
      push(r);
    }
  }
  void mul(const Step& s) {
    frn::Mult*& mult = mults[s.obj];
    if (!mult) mult = new frn::Mult(net, rep(p.n, p.d), man(id, p.n, p.d), p.keys.make(id, p.n, p.d), *cd);
    size_t pos = 0;
    for (size_t g : s.groups[id]) {
      size_t c = g / 2;
      if (g & 1) {
        std::vector<Shr> x, y;
        for (size_t i = 0; i < c; i++, pos++) { x.push_back(pool[s.mul[pos].first]); y.push_back(pool[s.mul[pos].second]); }
        mult->Prepare(x, y);
      } else
        for (size_t i = 0; i < c; i++, pos++) mult->Prepare(pool[s.mul[pos].first], pool[s.mul[pos].second]);
    }
    auto r = mult->Run();
    SIM_CHECK(r.size() == s.mul.size(), "output-count", "party %zu prepared %zu multiplications and obtained %zu shares", id, s.mul.size(), r.size());
    for (auto& x : r) push(x);
  }
  void open(const Step& s) {
    bool shr = p.d == dmax(p.n);
    std::vector<Shr> mine;
    for (size_t x : s.open) mine.push_back(pool[x]);
    for (int j : s.sord[id]) {
      if (!s.recv[j]) continue;
      if (shr) net->SendShares((unsigned)j, mine);
      else for (auto& m : mine) net->Send((unsigned)j, m);
    }
    if (!s.recv[id]) return;
    std::vector<std::vector<Shr>> all(s.open.size(), std::vector<Shr>(p.n));
    for (int i : s.rord[id]) {
      if (shr) {
        auto v = net->RecvShares((unsigned)i, s.open.size());
        for (size_t x = 0; x < v.size(); x++) all[x][i] = v[x];
      } else
        for (size_t x = 0; x < s.open.size(); x++) all[x][i] = net->Recv((unsigned)i, layout(p.n, p.d).share());
    }
    for (auto& a : all) {
      Field f = s.detect ? rep(p.n, p.d).ErrorDetection(a) : rep(p.n, p.d).Reconstruct(a);
      Book b;
      o.opened.push_back(val(f));
    }
  }
  void check() {
    frn::Check c(net, rep(p.n, p.d), man(id, p.n, p.d), *cd);
    c.ComputeRandomCoefficients();
    c.PrepareLinearCombinations();
    c.PrepareMsgs();
    c.ReconstructMsgs();
  }
  void exec(Net& tcp) {
    cd = o.cd = std::make_shared<frn::CheckData>((unsigned)p.d);
    for (size_t i = 0; i < p.st.size(); i++) {
      o.step = i;
      if (rec) rec->step = i;
      auto& s = p.st[i];
      switch (s.k) {
        case Step::PRE: for (auto& x : s.dealt[id]) push(x); break;
        case Step::IN: in(s); break;
        case Step::LIN: lin(s); break;
        case Step::MUL: mul(s); break;
        case Step::OPEN: open(s); break;
        case Step::CHECK: check(); break;
      }
      if (i < p.snap.size() && p.snap[i]) {
        { Book b; o.snaps.push_back({rec->sent, rec->got}); }
        tcp->PrintCommunicationSummary();
      }
    }
    { Book b; o.done = true; }
    if (p.summary && rec) { Book b; o.snaps.push_back({rec->sent, rec->got}); }
    if (p.summary) tcp->PrintCommunicationSummary();
  }
};
struct World {
  const Program& p;
  std::vector<Out> out;
  std::vector<int> pid;
  std::vector<RecNet*> rec;
  Gate ready;
  explicit World(const Program& p) : p(p), out(p.n), rec(p.n, nullptr) {}
  // `connected` runs in each party once every party is connected (if p.gate)
  void start(bool record, bool delays, std::function<void(size_t)> connected = {}) {
    for (size_t i = 0; i < p.n; i++)
      pid.push_back(spawn((int)i, 0, delays && i && coin(FLT, 0.2) ? start_delay() : 0, [this, i, record, connected] {
        Net& tcp = make_net((unsigned)i, p.n, p.port, p.log);
        out[i].stage = "connecting";
        tcp->Connect();
        out[i].stage = "computing";
        if (p.gate) { ready.arrive(); ready.wait(p.n); }
        if (connected) { Book b; connected(i); }
        Party* me;
        { Book b; me = new Party(p, i, out[i]); }
        if (record) { Book b; rec[i] = new RecNet((unsigned)i, p.n, tcp); me->rec = rec[i]; me->net.reset(rec[i], [](frn::Network*) {}); }
        else me->net = tcp;
        me->exec(tcp);
        out[i].stage = "closing";
        tcp->Close();
        out[i].stage = "closed";
      }));
  }
  void expect_ok(const char* what) {
    auto o = run();
    if (!o.done) {
      std::string s;
      for (size_t i = 0; i < p.n; i++) s += " p" + std::to_string(i) + ":" + out[i].stage + "/" + std::to_string(out[i].step);
      fail("hang", "%s: %s;%s; waiting: %s", what, o.capped ? "no end within the step/time bound" : "nothing can make progress", s.c_str(), o.who.c_str());
    }
    for (size_t i = 0; i < p.n; i++)
      SIM_CHECK(proc_exit(pid[i]) == Exit::Ok, "party-failed", "%s: party %zu ended with %s: %s (step %zu)", what, i, exit_name(proc_exit(pid[i])), proc_error(pid[i]).c_str(), out[i].step);
  }
  // every pool entry is a consistent sharing of the value it stands for
  void check_pool(const char* what) {
    const Layout& l = layout(p.n, p.d);
    for (size_t i = 0; i < p.n; i++)
      SIM_CHECK(out[i].pool.size() == p.clear.size(), "output-count", "%s: party %zu holds %zu shares instead of %zu", what, i, out[i].pool.size(), p.clear.size());
    for (size_t x = 0; x < p.clear.size(); x++) {
      std::vector<const Vec*> s;
      for (auto& o : out) s.push_back(&o.pool[x]);
      u64 v;
      std::string why;
      if (!join(l, s, v, why)) fail("inconsistent", "%s: sharing %zu (%s): %s", what, x, origin(x).c_str(), why.c_str());
      SIM_CHECK(v == p.clear[x], "wrong-value", "%s: sharing %zu (%s) has the value %llu instead of %llu", what, x, origin(x).c_str(), (unsigned long long)v, (unsigned long long)p.clear[x]);
    }
  }
  std::string origin(size_t x) {
    size_t c = 0;
    for (size_t i = 0; i < p.st.size(); i++) {
      auto& s = p.st[i];
      size_t k = 0;
      const char* nm = "";
      switch (s.k) {
        case Step::PRE: k = s.pre.size(); nm = "dealt"; break;
        case Step::IN: for (auto& v : s.contrib) k += v.size(); nm = "input"; break;
        case Step::LIN: k = s.lin.size(); nm = "linear gate"; break;
        case Step::MUL: k = s.mul.size(); nm = "product"; break;
        default: break;
      }
      if (x < c + k) return std::string(nm) + " " + std::to_string(x - c) + " of step " + std::to_string(i);
      c += k;
    }
    return "?";
  }
  void check_opened(const char* what) {
    for (size_t i = 0; i < p.n; i++) {
      size_t k = 0, w = 0;
      for (auto& s : p.st) {
        if (s.k != Step::OPEN) continue;
        if (s.recv[i])
          for (size_t x = 0; x < s.open.size(); x++, k++) {
            SIM_CHECK(k < out[i].opened.size(), "output-count", "%s: party %zu opened only %zu values", what, i, out[i].opened.size());
            SIM_CHECK(out[i].opened[k] == p.opened[w + x], "wrong-value", "%s: party %zu opened %llu instead of %llu", what, i, (unsigned long long)out[i].opened[k], (unsigned long long)p.opened[w + x]);
          }
        w += s.open.size();
      }
    }
  }
};
inline std::string describe(const Program& p) {
  std::string s = "n " + std::to_string(p.n) + " d " + std::to_string(p.d) + (p.keys.fresh ? "" : " default keys") + ":";
  for (auto& x : p.st) {
    size_t k = 0;
    switch (x.k) {
      case Step::PRE: s += " deal " + std::to_string(x.pre.size()); break;
      case Step::IN: for (auto& v : x.contrib) k += v.size(); s += " in " + std::to_string(k); break;
      case Step::LIN: s += " lin " + std::to_string(x.lin.size()); break;
      case Step::MUL: s += " mul " + std::to_string(x.mul.size()); break;
      case Step::OPEN: s += " open " + std::to_string(x.open.size()); break;
      case Step::CHECK: s += " check"; break;
    }
  }
  return s + ", policy " + std::to_string(cfg.policy);
}
// keeps the number of simulated steps of a run bounded
inline void bound(const Program& p) {
  size_t b = 0;
  size_t s = layout(p.n, p.d).share() * 8;
  for (auto& x : p.st) {
    if (x.k == Step::MUL) b += x.mul.size() * 8 * 2 * p.n;
    if (x.k == Step::IN) b += s * p.n * p.n + 8 * p.n * p.inputs;
    if (x.k == Step::OPEN) b += s * x.open.size() * p.n * p.n;
    if (x.k == Step::CHECK) b += p.n * p.n * 300 + layout(p.n, 2 * p.d).share() * 8 * p.n * p.n;
  }
  while (b / cfg.cap > 3000) cfg.cap *= 8;
  // a time-out after the last fault: slow networks with small windows need it
  cfg.time_cap = 20 * 3600ull * 1000000000ull;
}
}  // namespace mpc
