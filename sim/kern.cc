// The simulated kernel: sockets, and the interposed system interface.
#include <random>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "internal.h"

namespace sim {
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static long sysret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- sockets
struct Conn;
struct Pipe {                 // one direction of a connection
  std::string buf;            // arrived, unread
  size_t off = 0;
  size_t inflight = 0;
  u64 last = 0;               // arrival time of the newest segment
  bool fin_sent = false, fin = false, dead = false;
  u64 gen = 0;                // bumped when in-flight data is dropped
  size_t avail() const { return buf.size() - off; }
};
struct Sock {
  enum K { Fresh, Listening, Connecting, Connected, Dead } k = Fresh;
  int refs = 1;
  Proc* owner = nullptr;
  int host = 0;
  bool reuseaddr = false, reuseport = false, bound = false, nonblock = false;
  int lport = 0;
  int backlog = 0;
  std::deque<Sock*> acceptq;
  WaitQ q;
  std::shared_ptr<Conn> c;
  int side = 0;
  int err = 0;
  bool reset = false, rd_shut = false, gone = false;
  int cres = 0;               // result of an asynchronous connect
  bool cdone = false;
  u64 id = 0;
  int rport = 0, rhost = 0;
  u64 rcvto = 0, sndto = 0;   // SO_RCVTIMEO, SO_SNDTIMEO (0: none)
  bool hard = false;          // SO_LINGER with time 0
  bool self = false;          // connected to itself
  int in() const { return self ? side : 1 - side; }  // the pipe it reads from
};
struct Conn {
  Pipe p[2];                  // p[s]: written by side s
  Sock* end[2] = {nullptr, nullptr};
  int pid[2] = {-1, -1};
  std::string* tap[2] = {nullptr, nullptr};
  u64* arr[2] = {nullptr, nullptr};
  u64 id = 0;
  bool rst = false;
};
struct TimeWait { int host, port; bool ra, rp; u64 until; };

struct Poller { WaitQ q; std::vector<Sock*> on; };

struct K {
  std::vector<std::shared_ptr<Poller>> pollers;
  std::vector<Sock*> bound;   // sockets with a local port, in creation order
  std::vector<TimeWait> tw;
  std::vector<std::weak_ptr<Conn>> conns;
  std::map<std::pair<int, int>, std::string> taps;
  std::map<std::pair<int, int>, u64> nconn, arrived;
  u64 nextid = 0;
  int eport = 33000;
};
static K* k = nullptr;
void kern_reset() { k = new K; }
size_t kern_nfds(Proc* p) { return p->fds.size(); }
const std::string& wire(int s, int d) { Core c; return k->taps[{s, d}]; }
u64 wire_conns(int s, int d) { Core c; return k->nconn[{s, d}]; }
u64 arrived(int s, int d) { Core c; return k->arrived[{s, d}]; }

static bool is_sim_fd(int fd) { return cur && cur->proc->fds.count(fd); }
static void sock_wake(Sock* s) {
  wake_all(s->q);
  for (auto& p : k->pollers)  // whoever polls looks again after every change of one of its sockets
    if (std::find(p->on.begin(), p->on.end(), s) != p->on.end()) wake_all(p->q);
}
static Sock* sock_of(int fd) {
  auto it = cur->proc->fds.find(fd);
  return it == cur->proc->fds.end() ? nullptr : it->second;
}
static int new_fd(Sock* s) {
  int fd = 100;
  for (auto& kv : cur->proc->fds) { if (kv.first != fd) break; fd++; }
  cur->proc->fds[fd] = s;
  return fd;
}
static Sock* new_sock(Proc* p) {
  auto* s = new Sock;
  s->owner = p;
  s->host = p->host;
  s->id = ++k->nextid;
  return s;
}
static u64 latency() {
  u64 l = cfg.lat;
  if (cfg.jit) {
    u64 d = flt(9);
    if (d) { l += cfg.jit * d / 8; fault(FK_LATENCY); }
  }
  if (cfg.p_big > 0 && coin(FLT, cfg.p_big)) { l += 3000000000ull; fault(FK_BIGDELAY); }
  g->delayed += l;
  return l;
}
static void unbind(Sock* s) {
  if (!s->bound) return;
  k->bound.erase(std::remove(k->bound.begin(), k->bound.end(), s), k->bound.end());
  s->bound = false;
}
// schedule f to happen at the far end of pipe p after everything sent before
static void after_pipe(const std::shared_ptr<Conn>& c, int side, std::function<void()> f) {
  Pipe& p = c->p[side];
  u64 t = std::max(g->now + latency(), p.last);
  p.last = t;
  if (t <= g->now && p.inflight == 0) { f(); return; }
  u64 gen = p.gen;
  ev_after(t - g->now, [c, side, gen, f] { if (c->p[side].gen == gen) f(); });
}
static void rst_arrives(const std::shared_ptr<Conn>& c, int at) {
  Sock* e = c->end[at];
  if (!e || e->reset) return;
  e->reset = true;
  e->err = c->p[1 - at].fin ? EPIPE : ECONNRESET;
  c->p[at].gen++;            // what it still had to send is dropped
  c->p[at].inflight = 0;
  c->p[at].dead = true;
  hmix(0x77 + e->id);
  if (tracing()) trace("RST arrives at socket %llu of p%d", (unsigned long long)e->id, e->owner->pid);
  sock_wake(e);
}
static void drop_inflight(const std::shared_ptr<Conn>& c, int side) {
  Pipe& p = c->p[side];
  if (p.inflight) fault(FK_DATALOST);
  p.gen++;
  p.inflight = 0;
  p.last = g->now;
}
// side `s` resets the connection; `lose`: drop data still in flight
static void send_rst(const std::shared_ptr<Conn>& c, int s, bool lose) {
  if (lose) drop_inflight(c, s);
  after_pipe(c, s, [c, s] { rst_arrives(c, 1 - s); });
}
static void destroy(Sock* s, bool abortive) {
  if (s->gone) return;
  s->gone = true;
  if (s->hard) abortive = true;
  if (s->k == Sock::Listening) {
    unbind(s);
    for (Sock* a : s->acceptq) {
      fault(FK_RST);
      destroy(a, true);
    }
    s->acceptq.clear();
  } else if (s->c) {
    auto c = s->c;
    Pipe& in = c->p[s->in()];
    Pipe& out = c->p[s->side];
    bool unread = in.avail() > 0 || in.inflight > 0;
    bool peer_closed = in.fin_sent;
    c->end[s->side] = nullptr;
    if (s->self) c->end[1 - s->side] = nullptr;
    if (s->reset) {
    } else if (abortive || (unread && !s->rd_shut)) {
      if (!abortive) fault(FK_RST);
      send_rst(c, s->side, abortive || flt(2));
    } else {
      if (!out.fin_sent) {
        out.fin_sent = true;
        int side = s->side;
        after_pipe(c, side, [c, side] {
          c->p[side].fin = true;
          if (c->end[1 - side]) sock_wake(c->end[1 - side]);
        });
      }
      if (s->self) k->tw.push_back({s->host, s->lport, false, false, g->now + 60000000000ull});
      else if (!peer_closed && s->bound)
        k->tw.push_back({s->host, s->lport, s->reuseaddr, s->reuseport, g->now + 60000000000ull});
    }
    unbind(s);
  } else {
    unbind(s);
  }
  s->k = Sock::Dead;
  sock_wake(s);
}
static void unref(Sock* s) {
  if (--s->refs == 0) destroy(s, false);
}
struct Hold {  // a blocked call keeps the open file alive
  Sock* s;
  Hold(Sock* s) : s(s) { s->refs++; }
  ~Hold() { unref(s); }
};
void kern_close_all(Proc* p, bool abortive) {
  for (auto& kv : p->fds) {
    Sock* s = kv.second;
    s->refs = 0;
    destroy(s, abortive);
  }
  p->fds.clear();
  for (auto& w : k->conns)   // connections queued on nothing: owner is gone
    if (auto c = w.lock())
      for (int i = 0; i < 2; i++)
        if (c->end[i] && c->end[i]->owner == p) destroy(c->end[i], abortive);
}
void kern_rst_some(u64 which) {
  std::vector<std::shared_ptr<Conn>> v;
  for (auto& w : k->conns) if (auto c = w.lock()) if (c->end[0] && c->end[1] && !c->end[0]->reset && !c->end[1]->reset) v.push_back(c);
  if (v.empty()) return;
  auto c = v[which % v.size()];
  fault(FK_RST, "injected");
  drop_inflight(c, 0);
  drop_inflight(c, 1);
  rst_arrives(c, 0);
  rst_arrives(c, 1);
}

// ---------------------------------------------------------------- establishing
static void finish_connect(Sock* s, int res) {
  if (s->gone) return;
  s->cres = res;
  s->cdone = true;
  if (res) s->k = Sock::Fresh;
  sock_wake(s);
}
static void syn(Sock* s, int host, int port, int tries) {
  if (s->gone) return;
  std::vector<Sock*> l;
  for (Sock* b : k->bound) if (b->k == Sock::Listening && b->host == host && b->lport == port) l.push_back(b);
  if (l.empty()) {
    // The port may have been picked as the source port: a simultaneous open with itself.
    if (cfg.p_selfconn > 0 && host == s->host && !s->bound && port >= 32768 && port < 61000 && coin(FLT, cfg.p_selfconn)) {
      fault(FK_SELFCONN);
      auto c = std::make_shared<Conn>();
      c->id = ++k->nextid;
      s->lport = s->rport = port;
      s->rhost = host;
      s->self = true;
      c->end[0] = c->end[1] = s;
      int pid = s->owner->pid;
      c->pid[0] = c->pid[1] = pid;
      for (int i = 0; i < 2; i++) { c->tap[i] = &k->taps[{pid, pid}]; c->arr[i] = &k->arrived[{pid, pid}]; }
      k->nconn[{pid, pid}]++;
      k->conns.push_back(c);
      s->c = c;
      s->side = 0;
      hmix(0x3800 + c->id);
      if (tracing()) trace("connection %llu: p%d -> itself, port %d", (unsigned long long)c->id, pid, port);
      ev_after(latency(), [s] { if (!s->gone) { s->k = Sock::Connected; finish_connect(s, 0); } });
      return;
    }
    fault(FK_REFUSED);
    ev_after(latency(), [s] { finish_connect(s, ECONNREFUSED); });
    return;
  }
  Sock* ls = l[l.size() == 1 ? 0 : flt(l.size())];
  if ((int)ls->acceptq.size() > ls->backlog) {  // SYN dropped, retransmitted
    if (tries >= 6) { fault(FK_TIMEDOUT); finish_connect(s, ETIMEDOUT); return; }
    ev_after(1000000000ull << tries, [s, host, port, tries] { syn(s, host, port, tries + 1); });
    return;
  }
  auto c = std::make_shared<Conn>();
  c->id = ++k->nextid;
  Sock* a = new_sock(ls->owner);
  a->k = Sock::Connected;
  a->c = c;
  a->side = 1;
  a->lport = ls->lport;
  a->reuseaddr = ls->reuseaddr;
  a->reuseport = ls->reuseport;
  a->bound = true;
  a->rport = s->lport;
  a->rhost = s->host;
  k->bound.push_back(a);
  c->end[0] = s;
  c->end[1] = a;
  c->pid[0] = s->owner->pid;
  c->pid[1] = a->owner->pid;
  for (int i = 0; i < 2; i++) { c->tap[i] = &k->taps[{c->pid[i], c->pid[1 - i]}]; c->arr[i] = &k->arrived[{c->pid[i], c->pid[1 - i]}]; k->nconn[{c->pid[i], c->pid[1 - i]}]++; }
  k->conns.push_back(c);
  s->c = c;
  s->side = 0;
  s->rport = port;
  s->rhost = host;
  ls->acceptq.push_back(a);
  sock_wake(ls);
  hmix(0x3000 + c->id);
  if (tracing()) trace("connection %llu: p%d -> p%d port %d", (unsigned long long)c->id, c->pid[0], c->pid[1], port);
  ev_after(latency(), [s] { if (!s->gone) { s->k = Sock::Connected; finish_connect(s, 0); } });
}

// A local port for a socket that has none: one nobody on the host has bound, and not
// the port it is to be connected to (see syn() for that).
static int ephemeral(int host, int not_this) {
  for (int i = 0; i < 28000; i++) {
    int p = k->eport++;
    if (k->eport >= 61000) k->eport = 32768;
    bool used = p == not_this;
    for (Sock* b : k->bound) used |= b->host == host && b->lport == p;
    if (!used) return p;
  }
  return 0;
}
static int addr_host(u32 a) {  // host number of an IPv4 address, -1 unknown
  a = ntohl(a);
  if (a == 0 || (a >> 24) == 127) return cur->proc->host;
  if ((a >> 8) == (10u << 16)) return (int)(a & 255);
  return -1;
}
static int k_socket(int domain, int type) {
  if (domain != AF_INET || (type & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
  point("socket");
  Sock* s = new_sock(cur->proc);
  s->nonblock = type & SOCK_NONBLOCK;
  return new_fd(s);
}
static int k_bind(Sock* s, const sockaddr_in* a) {
  point("bind");
  int port = ntohs(a->sin_port);
  if (s->bound) { errno = EINVAL; return -1; }
  if (port == 0) port = ephemeral(s->host, 0);
  for (Sock* b : k->bound) {
    if (b->host != s->host || b->lport != port) continue;
    bool ok = (s->reuseport && b->reuseport) || (s->reuseaddr && b->reuseaddr && b->k != Sock::Listening);
    if (!ok) { probe("bind: address in use"); errno = EADDRINUSE; return -1; }
  }
  for (auto& t : k->tw)
    if (t.host == s->host && t.port == port && t.until > g->now) {
      bool ok = (s->reuseport && t.rp) || (s->reuseaddr && t.ra);
      if (!ok) { probe("bind: address in TIME_WAIT"); errno = EADDRINUSE; return -1; }
      probe("bind over TIME_WAIT");
    }
  s->lport = port;
  s->bound = true;
  k->bound.push_back(s);
  return 0;
}
static int k_listen(Sock* s, int backlog) {
  point("listen");
  if (!s->bound) { s->lport = ephemeral(s->host, 0); s->bound = true; k->bound.push_back(s); }
  for (Sock* b : k->bound)
    if (b != s && b->host == s->host && b->lport == s->lport && b->k == Sock::Listening && !(b->reuseport && s->reuseport)) { errno = EADDRINUSE; return -1; }
  s->k = Sock::Listening;
  s->backlog = backlog < 0 ? 0 : backlog;
  return 0;
}
// wait until something happens to the socket; false: the time limit has passed
static bool wait_sock(Sock* s, const char* why, u64 limit) {
  if (!limit) { wait_on(s->q, why); return true; }
  if (g->now >= limit) return false;
  wait_on_timeout(s->q, why, limit - g->now);
  return true;
}
static int k_accept(Sock* s, sockaddr* addr, socklen_t* len, int flags) {
  point("accept");
  if (s->k != Sock::Listening) { errno = EINVAL; return -1; }
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) { fault(FK_EINTR, "accept"); errno = EINTR; return -1; }
  Hold h(s);
  u64 limit = s->rcvto ? g->now + s->rcvto : 0;
  while (s->acceptq.empty()) {
    if (s->nonblock || !wait_sock(s, "accept", limit)) { errno = EAGAIN; return -1; }
    if (s->k != Sock::Listening) { errno = EINVAL; return -1; }
  }
  Sock* a = s->acceptq.front();
  s->acceptq.pop_front();
  a->nonblock = flags & SOCK_NONBLOCK;
  int fd = new_fd(a);
  if (addr && len) {
    sockaddr_in sa{};
    sa.sin_family = AF_INET;
    sa.sin_port = htons(a->rport);
    sa.sin_addr.s_addr = htonl(0x0a000000u + a->rhost);
    memcpy(addr, &sa, std::min<socklen_t>(*len, sizeof sa));
    *len = sizeof sa;
  }
  if (tracing()) trace("accept -> fd %d (connection %llu)", fd, (unsigned long long)a->c->id);
  return fd;
}
static int k_connect(Sock* s, const sockaddr_in* a) {
  point("connect");
  if (s->k == Sock::Listening || s->k == Sock::Dead) { errno = EINVAL; return -1; }
  if (s->k == Sock::Connected && !s->cdone) { errno = EISCONN; return -1; }
  Hold h(s);
  if (s->k == Sock::Fresh && !s->cdone) {
    int host = addr_host(a->sin_addr.s_addr), port = ntohs(a->sin_port);
    s->k = Sock::Connecting;
    if (!s->bound) s->lport = ephemeral(s->host, port);
    if (cfg.p_refuse > 0 && g->now < cfg.refuse_until && coin(FLT, cfg.p_refuse)) {
      static const u64 d[] = {20000, 1000000, 1000000000, 7000000000};
      u64 w = flt(4);
      fault(w < 2 ? FK_REFUSED : FK_TIMEDOUT, "injected");
      ev_after(d[w], [s, w] { finish_connect(s, w < 2 ? ECONNREFUSED : ETIMEDOUT); });
    } else if (host < 0) {
      ev_after(latency(), [s] { finish_connect(s, EHOSTUNREACH); });
    } else {
      u64 l = latency();
      if (l) ev_after(l, [s, host, port] { syn(s, host, port, 0); });
      else syn(s, host, port, 0);
    }
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
  } else if (s->k == Sock::Connecting && s->nonblock && !s->cdone) { errno = EALREADY; return -1; }
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) { fault(FK_EINTR, "connect"); errno = EINTR; return -1; }
  u64 limit = s->sndto ? g->now + s->sndto : 0;
  while (!s->cdone) if (!wait_sock(s, "connect", limit)) { errno = EINPROGRESS; return -1; }
  s->cdone = false;
  if (s->cres) { errno = s->cres; s->cres = 0; return -1; }
  if (tracing()) trace("connected");
  return 0;
}

// ---------------------------------------------------------------- data transfer
static int epipe(int flags) {
  if (!(flags & MSG_NOSIGNAL) && !cur->proc->sigpipe_ign) {
    probe("SIGPIPE");
    proc_end(cur->proc, Exit::Sigpipe, 141, "killed by SIGPIPE");
  }
  errno = EPIPE;
  return -1;
}
static ssize_t k_write(Sock* s, const void* vb, size_t n, int flags) {
  point("write");
  const u8* b = (const u8*)vb;
  Proc* p = cur->proc;
  p->writes++;
  if (p->write_fail && p->writes == p->write_fail) {
    fault(FK_WRITEFAIL);
    errno = p->write_errno;
    return -1;
  }
  if (!s->c) { if (s->k == Sock::Connected || s->k == Sock::Fresh) { errno = ENOTCONN; return epipe(flags); } errno = ENOTCONN; return -1; }
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) { fault(FK_EINTR, "write"); errno = EINTR; return -1; }
  if (n == 0) return 0;
  n = std::min(n, (size_t)0x7ffff000);  // as Linux does
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Hold h(s);
  auto c = s->c;
  Pipe& out = c->p[s->side];
  size_t want = n;
  if (n > 1 && cfg.p_shortwrite > 0 && coin(FLT, cfg.p_shortwrite)) { want = n - 1 - flt(n - 1); fault(FK_SHORTWRITE); }
  size_t sent = 0;
  u64 limit = s->sndto ? g->now + s->sndto : 0;
  while (sent < want) {
    if (s->err || s->reset || out.fin_sent || out.dead) {
      if (sent) break;
      if (s->err) { int e = s->err; s->err = 0; if (e == EPIPE) return epipe(flags); errno = e; return -1; }
      return epipe(flags);
    }
    size_t used = out.avail() + out.inflight;
    size_t space = cfg.cap > used ? cfg.cap - used : 0;
    if (!space) {
      if (nb) { if (sent) break; errno = EAGAIN; return -1; }
      fault(FK_BUFFULL);
      if (!wait_sock(s, "write (buffer full)", limit)) { if (sent) break; errno = EAGAIN; return -1; }
      continue;
    }
    size_t m = std::min(space, want - sent);
    if (m > 1 && cfg.p_split > 0 && coin(FLT, cfg.p_split)) { m = m - 1 - flt(m - 1); fault(FK_SPLIT); }
    rt_access(b + sent, m, false);
    std::string seg((const char*)b + sent, m);
    if (cfg.tap) c->tap[s->side]->append(seg);
    out.inflight += m;
    sent += m;
    int side = s->side;
    after_pipe(c, side, [c, side, seg] {
      Pipe& o = c->p[side];
      o.inflight -= std::min(o.inflight, seg.size());
      Sock* e = c->end[1 - side];
      if (!e) {  // nobody there any more
        fault(FK_RST, "data for a closed socket");
        if (c->end[side]) { send_rst(c, 1 - side, flt(2)); }
        return;
      }
      if (e->reset) return;
      o.buf.append(seg);
      *c->arr[side] += seg.size();
      sock_wake(e);
    });
  }
  if (tracing()) trace("write %zu/%zu on connection %llu", sent, n, (unsigned long long)c->id);
  return (ssize_t)sent;
}
static ssize_t k_read(Sock* s, void* vb, size_t n, int flags) {
  point("read");
  if (!s->c) { errno = ENOTCONN; return -1; }
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) { fault(FK_EINTR, "read"); errno = EINTR; return -1; }
  if (n == 0) return 0;
  n = std::min(n, (size_t)0x7ffff000);
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Hold h(s);
  auto c = s->c;
  Pipe& in = c->p[s->in()];
  size_t got = 0;
  u64 limit = s->rcvto ? g->now + s->rcvto : 0;
  for (;;) {
    if (in.avail()) {
      size_t m = std::min(n - got, in.avail());
      bool brk = false;
      if (m > 1 && cfg.p_shortread > 0 && coin(FLT, cfg.p_shortread)) { m = m - 1 - flt(m - 1); fault(FK_SHORTREAD); brk = true; }
      rt_access((u8*)vb + got, m, true);
      memcpy((u8*)vb + got, in.buf.data() + in.off, m);
      got += m;
      if (!(flags & MSG_PEEK)) {
        in.off += m;
        if (in.off == in.buf.size()) { in.buf.clear(); in.off = 0; }
        else if (in.off > 65536) { in.buf.erase(0, in.off); in.off = 0; }
        if (c->end[1 - s->side]) sock_wake(c->end[1 - s->side]);
      }
      if (got == n || brk || !(flags & MSG_WAITALL)) break;
      continue;
    }
    if (got && !(flags & MSG_WAITALL)) break;
    if (s->err) { if (got) break; int e = s->err; s->err = 0; if (e == EPIPE) return 0; errno = e; return -1; }
    if (s->reset || in.fin || s->rd_shut) break;
    if (nb) { if (got) break; errno = EAGAIN; return -1; }
    if (!wait_sock(s, "read", limit)) { if (got) break; errno = EAGAIN; return -1; }
  }
  if (tracing()) trace("read %zu/%zu on connection %llu", got, n, (unsigned long long)c->id);
  return (ssize_t)got;
}
static int k_close(int fd) {
  point("close");
  auto& fds = cur->proc->fds;
  auto it = fds.find(fd);
  if (it == fds.end()) { probe("close of a bad descriptor"); errno = EBADF; return -1; }
  Sock* s = it->second;
  fds.erase(it);
  if (tracing()) trace("close fd %d", fd);
  if (s->refs > 1) probe("close while another call uses the socket");
  unref(s);
  return 0;
}
static int k_shutdown(Sock* s, int how) {
  point("shutdown");
  if (s->k == Sock::Listening) { s->k = Sock::Dead; sock_wake(s); return 0; }
  if (!s->c || s->reset) { errno = ENOTCONN; return -1; }
  auto c = s->c;
  if (how == SHUT_WR || how == SHUT_RDWR) {
    Pipe& out = c->p[s->side];
    if (!out.fin_sent) {
      out.fin_sent = true;
      int side = s->side;
      after_pipe(c, side, [c, side] { c->p[side].fin = true; if (c->end[1 - side]) sock_wake(c->end[1 - side]); });
    }
  }
  if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
  sock_wake(s);
  return 0;
}
static short revents(Sock* s, short ev) {
  short r = 0;
  if (s->k == Sock::Listening) { if (!s->acceptq.empty()) r |= POLLIN; }
  else if (s->c && (s->k == Sock::Connected || s->cdone)) {
    Pipe& in = s->c->p[s->in()];
    Pipe& out = s->c->p[s->side];
    if (in.avail() || in.fin || s->reset) r |= POLLIN;
    if (in.fin) r |= POLLRDHUP;
    if (out.avail() + out.inflight < cfg.cap || s->reset) r |= POLLOUT;
    if (s->err) r |= POLLERR;
    if (s->reset) r |= POLLHUP;
  } else if (s->k == Sock::Fresh && s->cdone) r |= POLLOUT | POLLERR;
  return r & (ev | POLLERR | POLLHUP);
}
static int k_poll(pollfd* f, nfds_t n, i64 ns) {
  point("poll");
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) { fault(FK_EINTR, "poll"); errno = EINTR; return -1; }
  u64 end = ns < 0 ? ~0ull : g->now + ns;
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      f[i].revents = 0;
      if (f[i].fd < 0) continue;
      Sock* s = sock_of(f[i].fd);
      f[i].revents = s ? revents(s, f[i].events) : POLLNVAL;
      if (f[i].revents) c++;
    }
    if (c || g->now >= end) return c;
    auto p = std::make_shared<Poller>();
    for (nfds_t i = 0; i < n; i++) if (f[i].fd >= 0) p->on.push_back(sock_of(f[i].fd));
    k->pollers.push_back(p);
    if (ns < 0) wait_on(p->q, "poll");
    else wait_on_timeout(p->q, "poll", end - g->now);
    k->pollers.erase(std::remove(k->pollers.begin(), k->pollers.end(), p), k->pollers.end());
  }
}

// ---------------------------------------------------------------- threads
struct Mtx { Fiber* owner = nullptr; int depth = 0; WaitQ q; };
struct Rw { Fiber* w = nullptr; int readers = 0; WaitQ q; };
struct Sync {
  std::unordered_map<const void*, Mtx> m;
  std::unordered_map<const void*, WaitQ> c;
  std::unordered_map<const void*, Rw> rw;
  std::unordered_map<const void*, WaitQ> fx;
  std::unordered_map<const void*, WaitQ> once;
};
static Sync* sy() { static Sync* s = new Sync; return s; }

static int m_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int m_lock(pthread_mutex_t* m, bool tryit, i64 ns = -1) {
  point("lock");
  u64 end = ns < 0 ? 0 : g->now + ns;
  Mtx* x = &sy()->m[m];
  if (x->owner == cur) {
    if (m_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; }
    if (tryit) return EBUSY;
    if (m_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (x->owner) {
    if (tryit) return EBUSY;
    if (ns >= 0) { if (g->now >= end || !wait_on_timeout(x->q, "mutex", end - g->now)) return ETIMEDOUT; }
    else wait_on(x->q, "mutex");
    x = &sy()->m[m];
  }
  x->owner = cur;
  x->depth = 1;
  rt_acquire(m);
  return 0;
}
static void m_unlock_nopoint(pthread_mutex_t* m) {
  Mtx* x = &sy()->m[m];
  if (x->owner != cur) fail("lock-misuse", "a mutex was unlocked by a thread that does not hold it");
  if (--x->depth) return;
  x->owner = nullptr;
  rt_release(m);
  wake_all(x->q);
}
static int c_wait(pthread_cond_t* cv, pthread_mutex_t* m, i64 ns) {
  point("cond_wait");
  Mtx* x = &sy()->m[m];
  if (x->owner != cur) fail("lock-misuse", "condition wait without holding the mutex");
  int depth = x->depth;
  x->depth = 1;
  m_unlock_nopoint(m);
  WaitQ& q = sy()->c[cv];
  if (cfg.p_spurious > 0 && coin(FLT, cfg.p_spurious)) {
    Fiber* f = cur;
    u64 ws = f->waitseq + 1;
    static const u64 d[] = {1, 3000, 1000000, 200000000};
    ev_after(d[flt(4)], [f, ws] {
      if (f->st == Fiber::Blocked && f->waitseq == ws) { fault(FK_SPURIOUS); wake(f); }
    });
  }
  bool ok = true;
  if (ns >= 0) ok = wait_on_timeout(q, "condition", ns);
  else wait_on(q, "condition");
  WaitQ& q2 = sy()->c[cv];
  for (size_t i = 0; i < q2.w.size(); i++) if (q2.w[i] == cur) { q2.w.erase(q2.w.begin() + i); break; }
  x = &sy()->m[m];
  while (x->owner) { wait_on(x->q, "mutex (after condition)"); x = &sy()->m[m]; }
  x->owner = cur;
  x->depth = depth;
  rt_acquire(m);
  return ok ? 0 : ETIMEDOUT;
}
static i64 ts_ns(const timespec* t) { return (i64)t->tv_sec * 1000000000 + t->tv_nsec; }
static const i64 kEpoch = 1700000000ll * 1000000000ll;
static i64 clock_ns(clockid_t id) {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) return kEpoch + (i64)g->now + g->clock_off;
  return 1000000000000ll + (i64)g->now;
}
static i64 until(clockid_t id, const timespec* t) { i64 d = ts_ns(t) - clock_ns(id); return d < 0 ? 0 : d; }

static long k_futex(int* a, int op, int val, const timespec* to, int* a2, int v3) {
  int cmd = op & FUTEX_CMD_MASK;
  (void)a2; (void)v3;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point("futex_wait");
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    WaitQ& q = sy()->fx[a];
    if (cfg.p_spurious > 0 && coin(FLT, cfg.p_spurious)) { fault(FK_SPURIOUS); errno = EINTR; return -1; }
    if (to) {
      i64 d = cmd == FUTEX_WAIT ? ts_ns(to) : until((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
      if (!wait_on_timeout(q, "futex", d)) { errno = ETIMEDOUT; return -1; }
    } else wait_on(q, "future/futex");
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    WaitQ& q = sy()->fx[a];
    while (n < val && wake_one(q)) n++;
    point("futex_wake");
    return n;
  }
  errno = ENOSYS;
  return -1;
}
WaitQ& once_q(const void* key) { return sy()->once[key]; }
}  // namespace sim

using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default"), used))
#define SIMFD(fd) (in_user() && is_sim_fd(fd))

EXPORT int socket(int d, int t, int p) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_socket, d, t, p));
  Core c;
  return k_socket(d, t);
}
static int badfd() { errno = EBADF; return -1; }
EXPORT int bind(int fd, const sockaddr* a, socklen_t l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_bind, fd, (long)a, l));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_bind(s, (const sockaddr_in*)a) : badfd();
}
EXPORT int listen(int fd, int b) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_listen, fd, b));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_listen(s, b) : badfd();
}
EXPORT int accept4(int fd, sockaddr* a, socklen_t* l, int fl) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_accept4, fd, (long)a, (long)l, fl));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_accept(s, a, l, fl) : badfd();
}
EXPORT int accept(int fd, sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
EXPORT int connect(int fd, const sockaddr* a, socklen_t l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_connect, fd, (long)a, l));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_connect(s, (const sockaddr_in*)a) : badfd();
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (in_user() && (fd < 3 || fd >= 100)) {
    Core c;
    Sock* s = sock_of(fd);
    if (s) return k_write(s, b, n, 0);
    if (fd == 1 || fd == 2) { cur->proc->out.append((const char*)b, n); return (ssize_t)n; }
    point("write");
    probe("write on a bad descriptor");
    return badfd();
  }
  return sysret(raw_syscall(SYS_write, fd, (long)b, (long)n));
}
EXPORT ssize_t read(int fd, void* b, size_t n) {
  if (in_user() && (fd < 3 || fd >= 100)) {
    Core c;
    Sock* s = sock_of(fd);
    if (s) return k_read(s, b, n, 0);
    point("read");
    probe("read on a bad descriptor");
    return badfd();
  }
  return sysret(raw_syscall(SYS_read, fd, (long)b, (long)n));
}
EXPORT ssize_t send(int fd, const void* b, size_t n, int fl) {
  if (!in_user()) return sysret(raw_syscall(SYS_sendto, fd, (long)b, (long)n, fl));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_write(s, b, n, fl) : badfd();
}
EXPORT ssize_t recv(int fd, void* b, size_t n, int fl) {
  if (!in_user()) return sysret(raw_syscall(SYS_recvfrom, fd, (long)b, (long)n, fl));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_read(s, b, n, fl) : badfd();
}
EXPORT ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr*, socklen_t) { return send(fd, b, n, fl); }
EXPORT ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr*, socklen_t*) { return recv(fd, b, n, fl); }
EXPORT ssize_t writev(int fd, const iovec* v, int n) {
  if (!SIMFD(fd)) {
    if (in_user() && (fd == 1 || fd == 2)) {
      Core c;
      ssize_t t = 0;
      for (int i = 0; i < n; i++) { cur->proc->out.append((const char*)v[i].iov_base, v[i].iov_len); t += v[i].iov_len; }
      return t;
    }
    return sysret(raw_syscall(SYS_writev, fd, (long)v, n));
  }
  Core c;
  std::string all;
  for (int i = 0; i < n; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return k_write(sock_of(fd), all.data(), all.size(), 0);
}
EXPORT ssize_t readv(int fd, const iovec* v, int n) {
  if (!SIMFD(fd)) return sysret(raw_syscall(SYS_readv, fd, (long)v, n));
  Core c;
  size_t tot = 0;
  for (int i = 0; i < n; i++) tot += v[i].iov_len;
  std::string all(tot, 0);
  ssize_t r = k_read(sock_of(fd), &all[0], tot, 0);
  size_t off = 0;
  for (int i = 0; i < n && r > 0 && off < (size_t)r; i++) {
    size_t m = std::min(v[i].iov_len, (size_t)r - off);
    memcpy(v[i].iov_base, all.data() + off, m);
    off += m;
  }
  return r;
}
EXPORT ssize_t sendmsg(int fd, const msghdr* m, int fl) {
  if (!SIMFD(fd)) return sysret(raw_syscall(SYS_sendmsg, fd, (long)m, fl));
  Core c;
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return k_write(sock_of(fd), all.data(), all.size(), fl);
}
EXPORT ssize_t recvmsg(int fd, msghdr* m, int fl) {
  if (!SIMFD(fd)) return sysret(raw_syscall(SYS_recvmsg, fd, (long)m, fl));
  Core c;
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  std::string all(tot, 0);
  ssize_t r = k_read(sock_of(fd), &all[0], tot, fl);
  size_t off = 0;
  for (size_t i = 0; i < m->msg_iovlen && r > 0 && off < (size_t)r; i++) {
    size_t n = std::min(m->msg_iov[i].iov_len, (size_t)r - off);
    memcpy(m->msg_iov[i].iov_base, all.data() + off, n);
    off += n;
  }
  return r;
}
EXPORT int close(int fd) {
  if (in_user()) {
    if (fd < 3 || fd >= 100) { Core c; return k_close(fd); }
  }
  return (int)sysret(raw_syscall(SYS_close, fd));
}
EXPORT int shutdown(int fd, int how) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_shutdown, fd, how));
  Core c;
  Sock* s = sock_of(fd);
  return s ? k_shutdown(s, how) : badfd();
}
EXPORT int setsockopt(int fd, int lvl, int name, const void* v, socklen_t l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_setsockopt, fd, lvl, name, (long)v, l));
  Core c;
  Sock* s = sock_of(fd);
  if (!s) return badfd();
  int x = l >= 4 ? *(const int*)v : 0;
  if (lvl == SOL_SOCKET && name == SO_REUSEADDR) s->reuseaddr = x;
  if (lvl == SOL_SOCKET && name == SO_REUSEPORT) s->reuseport = x;
  if (lvl == SOL_SOCKET && name == SO_LINGER && l >= sizeof(linger)) {
    auto* x = (const linger*)v;
    s->hard = x->l_onoff && !x->l_linger;
  }
  if (lvl == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && l >= sizeof(timeval)) {
    auto* x = (const timeval*)v;
    (name == SO_RCVTIMEO ? s->rcvto : s->sndto) = (u64)x->tv_sec * 1000000000ull + (u64)x->tv_usec * 1000ull;
  }
  return 0;
}
EXPORT int getsockopt(int fd, int lvl, int name, void* v, socklen_t* l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_getsockopt, fd, lvl, name, (long)v, (long)l));
  Core c;
  Sock* s = sock_of(fd);
  if (!s) return badfd();
  int x = 0;
  if (lvl == SOL_SOCKET && name == SO_ERROR) {
    if (s->cdone && s->cres) { x = s->cres; s->cres = 0; s->cdone = false; }
    else { x = s->err; s->err = 0; }
  }
  if (lvl == SOL_SOCKET && name == SO_REUSEADDR) x = s->reuseaddr;
  if (lvl == SOL_SOCKET && name == SO_REUSEPORT) x = s->reuseport;
  if (*l >= 4) { *(int*)v = x; *l = 4; }
  return 0;
}
EXPORT int poll(pollfd* f, nfds_t n, int ms) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_poll, (long)f, (long)n, ms));
  Core c;
  return k_poll(f, n, ms < 0 ? -1 : (i64)ms * 1000000);
}
EXPORT int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* t) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_select, n, (long)r, (long)w, (long)x, (long)t));
  Core c;
  std::vector<pollfd> v;
  for (int i = 0; i < n; i++) {
    short e = 0;
    if (r && FD_ISSET(i, r)) e |= POLLIN;
    if (w && FD_ISSET(i, w)) e |= POLLOUT;
    if (e || (x && FD_ISSET(i, x))) v.push_back({i, e, 0});
  }
  int k = k_poll(v.data(), v.size(), t ? (i64)t->tv_sec * 1000000000 + (i64)t->tv_usec * 1000 : -1);
  if (k < 0) return k;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  k = 0;
  for (auto& f : v) {
    if (f.revents & POLLNVAL) { errno = EBADF; return -1; }
    if (r && (f.events & POLLIN) && (f.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(f.fd, r); k++; }
    if (w && (f.events & POLLOUT) && (f.revents & (POLLOUT | POLLERR))) { FD_SET(f.fd, w); k++; }
  }
  return k;
}
EXPORT int ppoll(pollfd* f, nfds_t n, const timespec* t, const sigset_t*) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_ppoll, (long)f, (long)n, (long)t, 0, 8));
  Core c;
  return k_poll(f, n, t ? ts_ns(t) : -1);
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!SIMFD(fd)) return (int)sysret(raw_syscall(SYS_fcntl, fd, cmd, arg));
  Core c;
  Sock* s = sock_of(fd);
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!SIMFD(fd)) return (int)sysret(raw_syscall(SYS_ioctl, fd, (long)req, (long)arg));
  Core c;
  Sock* s = sock_of(fd);
  if (req == FIONREAD) { *(int*)arg = s->c ? (int)s->c->p[s->in()].avail() : 0; return 0; }
  if (req == FIONBIO) { s->nonblock = *(int*)arg; return 0; }
  return 0;
}
EXPORT int getsockname(int fd, sockaddr* a, socklen_t* l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_getsockname, fd, (long)a, (long)l));
  Core c;
  Sock* s = sock_of(fd);
  if (!s) return badfd();
  sockaddr_in sa{};
  sa.sin_family = AF_INET;
  sa.sin_port = htons(s->lport);
  sa.sin_addr.s_addr = htonl(0x0a000000u + s->host);
  memcpy(a, &sa, std::min<socklen_t>(*l, sizeof sa));
  *l = sizeof sa;
  return 0;
}
EXPORT int getpeername(int fd, sockaddr* a, socklen_t* l) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_getpeername, fd, (long)a, (long)l));
  Core c;
  Sock* s = sock_of(fd);
  if (!s) return badfd();
  if (!s->c) { errno = ENOTCONN; return -1; }
  sockaddr_in sa{};
  sa.sin_family = AF_INET;
  sa.sin_port = htons(s->rport);
  sa.sin_addr.s_addr = htonl(0x0a000000u + s->rhost);
  memcpy(a, &sa, std::min<socklen_t>(*l, sizeof sa));
  *l = sizeof sa;
  return 0;
}

// ---- time
EXPORT int clock_gettime(clockid_t id, timespec* t) {
  if (!cur) return (int)sysret(raw_syscall(SYS_clock_gettime, id, (long)t));
  i64 n = clock_ns(id);
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  if (!core_depth) { Core c; point("clock"); }
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t* out) {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const timespec* rq, timespec* rm) {
  if (!in_user()) return (int)-raw_syscall(SYS_clock_nanosleep, id, fl, (long)rq, (long)rm);
  Core c;
  i64 d = (fl & TIMER_ABSTIME) ? until(id, rq) : ts_ns(rq);
  if (cfg.p_eintr > 0 && coin(FLT, cfg.p_eintr)) {
    fault(FK_EINTR, "sleep");
    if (rm && !(fl & TIMER_ABSTIME)) *rm = *rq;
    point("sleep");
    return EINTR;
  }
  sleep_ns(d);
  return 0;
}
EXPORT int nanosleep(const timespec* rq, timespec* rm) {
  if (!in_user()) return (int)sysret(raw_syscall(SYS_nanosleep, (long)rq, (long)rm));
  int r = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
  if (r) { errno = r; return -1; }
  return 0;
}
EXPORT int usleep(useconds_t us) {
  timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
EXPORT unsigned sleep(unsigned s) {
  timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
EXPORT int sched_yield() {
  if (in_user()) { Core c; point("sched_yield"); }
  return 0;
}

// ---- threads
EXPORT int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!in_user()) { on_fatal("harness", "thread created outside the simulation"); }
  Core c;
  Proc* p = cur->proc;
  p->threads++;
  if (p->thread_fail && p->threads == p->thread_fail) { fault(FK_THREADFAIL); return EAGAIN; }
  Fiber* f = new_fiber(p);
  f->start = fn;
  f->arg = arg;
  *t = (pthread_t)(f->id + 1);
  start_fiber(f);
  point("thread_create");
  return 0;
}
EXPORT int pthread_join(pthread_t t, void** ret) {
  if (!in_user()) return 0;
  Core c;
  point("join");
  Fiber* f = g->fibers[(u64)t - 1];
  while (!f->finished) wait_on(f->joiners, "join");
  rt_join(f);
  rt_acquire(f);
  if (ret) *ret = f->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t) { return 0; }
EXPORT pthread_t pthread_self() { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)0x7fffffff; }
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_user()) return 0;
  Core c;
  return m_lock(m, false);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_user()) return 0;
  Core c;
  return m_lock(m, true);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
  if (!in_user()) return 0;
  Core c;
  return m_lock(m, false, until(CLOCK_REALTIME, t));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const timespec* t) {
  if (!in_user()) return 0;
  Core c;
  return m_lock(m, false, until(id, t));
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_user()) return 0;
  Core c;
  m_unlock_nopoint(m);
  point("unlock");
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!in_user()) return 0;
  Core c;
  return c_wait(cv, m, -1);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const timespec* t) {
  if (!in_user()) return 0;
  Core c;
  return c_wait(cv, m, until(CLOCK_REALTIME, t));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t id, const timespec* t) {
  if (!in_user()) return 0;
  Core c;
  return c_wait(cv, m, until(id, t));
}
EXPORT int pthread_cond_signal(pthread_cond_t* cv) {
  if (!in_user()) return 0;
  Core c;
  wake_one(sy()->c[cv]);
  point("signal");
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* cv) {
  if (!in_user()) return 0;
  Core c;
  wake_all(sy()->c[cv]);
  point("broadcast");
  return 0;
}
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tryit) {
  Core c;
  point("rwlock");
  Rw* r = &sy()->rw[l];
  while (r->w || (wr && r->readers)) {
    if (tryit) return EBUSY;
    wait_on(r->q, "rwlock");
    r = &sy()->rw[l];
  }
  if (wr) r->w = cur; else r->readers++;
  rt_acquire(l);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return in_user() ? rw_lock(l, false, false) : 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return in_user() ? rw_lock(l, true, false) : 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return in_user() ? rw_lock(l, false, true) : 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return in_user() ? rw_lock(l, true, true) : 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!in_user()) return 0;
  Core c;
  Rw* r = &sy()->rw[l];
  if (r->w == cur) r->w = nullptr; else if (r->readers) r->readers--;
  rt_release(l);
  wake_all(r->q);
  point("rwunlock");
  return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (*o == 2) { if (in_user()) { Core c; rt_acquire(o); } return 0; }
  if (!in_user()) {
    *o = 1;
    fn();
    *o = 2;
    return 0;
  }
  {
    Core c;
    while (*o == 1) wait_on(sy()->once[o], "once");
    if (*o == 2) { rt_acquire(o); return 0; }
    *o = 1;
  }
  try { fn(); } catch (...) {
    Core c;
    *o = 0;
    wake_all(sy()->once[o]);
    throw;
  }
  Core c;
  *o = 2;
  rt_release(o);
  wake_all(sy()->once[o]);
  point("once");
  return 0;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && in_user()) {
    Core c;
    return k_futex((int*)a[0], (int)a[1], (int)a[2], (const timespec*)a[3], (int*)a[4], (int)a[5]);
  }
  return sysret(raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---- randomness of the operating system: a seeded stream that differs between
// the worlds of one run, so that results depending on it can be told apart
static u64 os_random() {
  static u64 n = 0;
  return content(0xA5A5000000000000ull + n++);
}
EXPORT ssize_t getrandom(void* b, size_t n, unsigned) {
  u8* p = (u8*)b;
  if (in_user()) { Core c; probe("operating system randomness used"); }
  for (size_t i = 0; i < n; i++) p[i] = (u8)os_random();
  return (ssize_t)n;
}
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
EXPORT u32 arc4random() { return (u32)os_random(); }
namespace std {  // random_device of libstdc++
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  unsigned v;
  getrandom(&v, sizeof v, 0);
  return v;
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}  // namespace std

// ---- signals and process end
extern "C" int __sigaction(int, const struct sigaction*, struct sigaction*);
EXPORT int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  if (!in_user()) return __sigaction(s, a, o);
  if (s == SIGPIPE && a) cur->proc->sigpipe_ign = a->sa_handler != SIG_DFL;
  if (o) { memset(o, 0, sizeof *o); }
  return 0;
}
EXPORT sighandler_t signal(int s, sighandler_t h) noexcept {
  if (!in_user()) {
    struct sigaction a{}, o{};
    a.sa_handler = h;
    __sigaction(s, &a, &o);
    return o.sa_handler;
  }
  if (s == SIGPIPE) cur->proc->sigpipe_ign = h != SIG_DFL;
  return SIG_DFL;
}
EXPORT void abort() noexcept {
  if (in_user()) {
    ++core_depth;
    proc_end(cur->proc, Exit::Abort, 134, "abort");
  }
  on_fatal("crash", "abort outside the simulated processes");
  __builtin_trap();
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
  if (in_user()) {
    ++core_depth;
    char b[256];
    snprintf(b, sizeof b, "assertion %s failed at %s:%u", e, f, l);
    proc_end(cur->proc, Exit::Assert, 134, b);
  }
  on_fatal("crash", e);
  __builtin_trap();
}
static void do_exit(int code) {
  if (in_user()) {
    ++core_depth;
    proc_end(cur->proc, code ? Exit::Exited : Exit::Ok, code, "exit");
  }
  raw_syscall(SYS_exit_group, code);
  __builtin_trap();
}
EXPORT void exit(int code) noexcept { do_exit(code); __builtin_trap(); }
EXPORT void _exit(int code) { do_exit(code); __builtin_trap(); }
EXPORT void _Exit(int code) noexcept { do_exit(code); __builtin_trap(); }
EXPORT void quick_exit(int code) noexcept { do_exit(code); __builtin_trap(); }
