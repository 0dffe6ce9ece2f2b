// Allocation (poisoning, fault injection) and the memory-access runtime of the
// instrumented build: preemption points and a happens-before race detector.
#include <errno.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>

#include "internal.h"

namespace sim {
u64 rt_accesses = 0, rt_shared = 0;
#ifdef SIM_INST
bool instrumented() { return true; }
#else
bool instrumented() { return false; }
#endif

// ---------------------------------------------------------------- shadow
// Per 8-byte granule: last writer and last readers (fiber, clock, byte mask).
struct Cell { u32 fib; u32 clk; u8 mask; u8 w; u8 at; u8 used; };
struct Gran { Cell c[4]; u8 freed; u8 next; };
struct Page { Gran g[512]; };
static std::unordered_map<u64, Page*>* pages;
static u64 last_key = ~0ull;
static Page* last_page;
static std::unordered_map<const void*, std::vector<u32>>* syncs;
static std::vector<u32>* fence_clk;
static u64 gap;

void rt_world_reset() {
  pages = new std::unordered_map<u64, Page*>;
  syncs = new std::unordered_map<const void*, std::vector<u32>>;
  fence_clk = new std::vector<u32>;
  last_key = ~0ull;
  gap = 0;
}
[[maybe_unused]] static void join(std::vector<u32>& a, const std::vector<u32>& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}
[[maybe_unused]] static u32& own(Fiber* f) {
  if (f->clk.size() <= (size_t)f->id) f->clk.resize(f->id + 1, 0);
  return f->clk[f->id];
}
void rt_fiber_new(Fiber* f, Fiber* parent) {
#ifdef SIM_INST
  if (parent && parent->proc == f->proc) { f->clk = parent->clk; own(parent)++; }
  own(f) = 1;
  rt_reset_range(f->stack, f->stack_size);
#else
  (void)f; (void)parent;
#endif
}
void rt_acquire(const void* key) {
#ifdef SIM_INST
  if (!cur) return;
  auto it = syncs->find(key);
  if (it != syncs->end()) join(cur->clk, it->second);
#else
  (void)key;
#endif
}
void rt_release(const void* key) {
#ifdef SIM_INST
  if (!cur) return;
  own(cur);
  join((*syncs)[key], cur->clk);
  own(cur)++;
#else
  (void)key;
#endif
}
void rt_join(Fiber* f) {
#ifdef SIM_INST
  join(cur->clk, f->clk);
#else
  (void)f;
#endif
}
[[maybe_unused]] static Page* page(u64 a, bool create) {
  u64 key = a >> 12;
  if (key == last_key) return last_page;
  auto it = pages->find(key);
  Page* p = it == pages->end() ? nullptr : it->second;
  if (!p) {
    if (!create) return nullptr;
    p = (Page*)calloc(1, sizeof(Page));
    (*pages)[key] = p;
  }
  last_key = key;
  last_page = p;
  return p;
}
void rt_reset_range(const void* vp, size_t n) {
#ifdef SIM_INST
  if (!pages || !n) return;
  u64 a = (u64)vp & ~7ull, e = ((u64)vp + n + 7) & ~7ull;
  while (a < e) {
    u64 pe = std::min(e, (a | 4095) + 1);
    if (Page* p = page(a, false)) memset((void*)&p->g[(a & 4095) >> 3], 0, ((pe - a) >> 3) * sizeof(Gran));
    a = pe;
  }
#else
  (void)vp; (void)n;
#endif
}

#ifdef SIM_INST
static void mark_freed(const void* vp, size_t n, bool freed) {
  u64 a = (u64)vp & ~7ull, e = ((u64)vp + n + 7) & ~7ull;
  for (; a < e; a += 8) page(a, true)->g[(a & 4095) >> 3].freed = freed;
}
// returns true if the location was used by another thread of this process
static bool check(u64 a, size_t n, bool w, bool at) {
  Fiber* f = cur;
  // thread-local storage: one block that the fibers take turns with
  static const u64 tp = (u64)__builtin_thread_pointer();
  if (a - (tp - 8192) < 8192 + 4096) return false;
  bool shared = false;
  u64 e = a + n;
  u32 me = own(f);
  while (a < e) {
    u64 gb = a & ~7ull;
    u64 ge = std::min(e, gb + 8);
    u8 mask = (u8)(((1u << (ge - a)) - 1) << (a - gb));
    Gran& gr = page(gb, true)->g[(gb & 4095) >> 3];
    if (gr.freed && cfg.races)
      fail("memory-error", "%s of %zu bytes of freed memory by %s of process %d", w ? "write" : "read", n, f->main ? "the main thread" : "a background thread", f->proc->pid);
    Cell* mine = nullptr;
    Cell* empty = nullptr;
    for (auto& c : gr.c) {
      if (!c.used) { if (!empty) empty = &c; continue; }
      Fiber* o = g->fibers[c.fib];
      if (o == f) {
        if (c.w == w && c.at == at && c.mask == mask) mine = &c;
        continue;
      }
      if (o->proc != f->proc) { c.used = 0; if (!empty) empty = &c; continue; }
      shared = true;
      if (!(c.mask & mask) || !(c.w || w) || (c.at && at)) continue;
      u32 known = (size_t)c.fib < f->clk.size() ? f->clk[c.fib] : 0;
      if (c.clk > known && cfg.races)
        fail("data-race", "%s by %s and %s by %s of process %d on the same memory are unordered",
             w ? "write" : "read", f->main ? "the main thread" : "a background thread",
             c.w ? "write" : "read", o->main ? "the main thread" : "a background thread", f->proc->pid);
    }
    Cell* t = mine ? mine : empty;
    if (!t) { t = &gr.c[gr.next & 3]; gr.next++; }
    *t = Cell{(u32)f->id, me, mask, (u8)w, (u8)at, 1};
    a = ge;
  }
  return shared;
}
#endif
void rt_access(const void* p, size_t n, bool w) {
#ifdef SIM_INST
  if (!cur || cur->quiet || !n) return;
  check((u64)p, n, w, false);
#else
  (void)p; (void)n; (void)w;
#endif
}
#ifdef SIM_INST
static void access(const void* p, size_t n, bool w, bool at) {
  if (!cur || core_depth || cur->quiet) return;
  Core c;
  rt_accesses++;
  bool sh = check((u64)p, n, w, at);
  bool pre = false;
  if (sh) {
    rt_shared++;
    if (cfg.p_mem > 0 && coin(SCH, cfg.p_mem)) pre = true;
  }
  if (cfg.mem_gap) {
    if (gap == 0) { gap = 1 + decide(SCH, 2 * cfg.mem_gap, rng_u64(SCH)); }
    if (--gap == 0) pre = true;
  }
  if (pre) { int e = errno; point("memory access"); errno = e; }
}
#endif

// ---------------------------------------------------------------- allocation
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
struct Hdr { u64 size; u32 magic; u32 off; };
static const u32 kMagic = 0x51ab51ab, kFree = 0xdeadbeef;
static const u64 kCanary = 0xC0FFEE0DDF00DULL;
static const int kQ = 64;
static void* quar[kQ];
static int qpos;

static void* sim_alloc(size_t n, size_t align, bool zero) {
  bool user = in_user();
  if (user) {
    Proc* p = cur->proc;
    p->allocs++;
    if (p->alloc_fail && p->allocs == p->alloc_fail && !cur->noallocfail) {
      Core c;
      fault(FK_ALLOCFAIL);
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > (1ull << 40)) { errno = ENOMEM; return nullptr; }
  size_t off = sizeof(Hdr);
  if (align > 16) off = (sizeof(Hdr) + align - 1) / align * align + align;
  u8* raw = (u8*)__libc_malloc(n + off + 8);
  if (!raw) { errno = ENOMEM; return nullptr; }
  if (user && cfg.heap_mix && n < 65536) {
    cfg.heap_mix ^= cfg.heap_mix << 13;
    cfg.heap_mix ^= cfg.heap_mix >> 7;
    cfg.heap_mix ^= cfg.heap_mix << 17;
    if (cfg.heap_mix & 1) {
      u8* other = (u8*)__libc_malloc(n + off + 8);
      if (other) { __libc_free(raw); raw = other; }
    }
  }
  u8* p = raw + off;
  if (align > 16) p = (u8*)(((u64)p) / align * align);
  Hdr* h = (Hdr*)p - 1;
  h->size = n;
  h->magic = kMagic;
  h->off = (u32)(p - raw);
  memcpy(p + n, &kCanary, 8);
  if (zero || user) { Core c; memset(p, zero ? 0 : cfg.poison, n); }
#ifdef SIM_INST
  if (user) { Core c; rt_reset_range(p, n); }
#endif
  return p;
}
static void sim_free(void* vp) {
  if (!vp) return;
  u8* p = (u8*)vp;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == kFree) { if (cur) fail("memory-error", "double free"); on_fatal("memory-error", "double free"); }
  if (h->magic != kMagic) { if (cur) fail("memory-error", "free of an invalid pointer or a heap underflow"); on_fatal("memory-error", "bad free"); }
  if (memcmp(p + h->size, &kCanary, 8)) { if (cur) fail("memory-error", "write past the end of a heap block of %zu bytes", (size_t)h->size); on_fatal("memory-error", "heap overflow"); }
  h->magic = kFree;
  if (in_user()) {
#ifdef SIM_INST
    if (!cur->quiet && h->size <= 65536) {
      Core c;
      if (h->size) check((u64)p, h->size, true, false);
      mark_freed(p, h->size, true);
    }
#endif
    { Core c; memset(p, 0xDD, h->size); }
    void* old = quar[qpos];
    quar[qpos] = p;
    qpos = (qpos + 1) % kQ;
    p = (u8*)old;
    if (!p) return;
    h = (Hdr*)p - 1;
#ifdef SIM_INST
    { Core c; rt_reset_range(p, h->size); }
#endif
  }
  __libc_free(p - h->off);
}
}  // namespace sim

using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default"), used))
EXPORT void* malloc(size_t n) noexcept { return sim_alloc(n, 16, false); }
EXPORT void free(void* p) noexcept { sim_free(p); }
EXPORT void* calloc(size_t a, size_t b) noexcept {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_alloc(n, 16, true);
}
EXPORT void* realloc(void* p, size_t n) noexcept {
  if (!p) return sim_alloc(n, 16, false);
  void* q = sim_alloc(n, 16, false);
  if (!q) return nullptr;
  Hdr* h = (Hdr*)p - 1;
  { Core c; memcpy(q, p, std::min<size_t>(h->size, n)); }
  sim_free(p);
  return q;
}
EXPORT void* memalign(size_t a, size_t n) noexcept { return sim_alloc(n, a, false); }
EXPORT void* aligned_alloc(size_t a, size_t n) noexcept { return sim_alloc(n, a, false); }
EXPORT int posix_memalign(void** o, size_t a, size_t n) noexcept {
  void* p = sim_alloc(n, a, false);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
EXPORT size_t malloc_usable_size(void* p) noexcept { return p ? ((Hdr*)p - 1)->size : 0; }

#ifdef SIM_INST
// ---------------------------------------------------------------- compiler hooks
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { access(p, n, false, false); } \
  EXPORT void __tsan_write##n(void* p) { access(p, n, true, false); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } \
  EXPORT void __tsan_volatile_read##n(void* p) { access(p, n, false, false); } \
  EXPORT void __tsan_volatile_write##n(void* p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false); }
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false, false); }

static void at_pre(const void* p, size_t n, bool w) { access(p, n, w, true); }
static void at_acq(const void* p, int mo) {
  if (!cur || core_depth) return;
  Core c;
  if (mo == __ATOMIC_RELAXED) { return; }
  if (mo != __ATOMIC_RELEASE) rt_acquire(p);
}
static void at_rel(const void* p, int mo) {
  if (!cur || core_depth) return;
  Core c;
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) rt_release(p);
}
static bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
// Accesses happen atomically here because only one thread runs at a time; the
// preemption point is before the operation.
#define AT(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre((const void*)a, sizeof(T), false); T v = *a; if (acq(mo)) at_acq((const void*)a, mo); return v; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_rel((const void*)a, mo); *a = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)(o + v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)(o - v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)(o & v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)(o | v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)(o ^ v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre((const void*)a, sizeof(T), true); at_acq((const void*)a, mo); at_rel((const void*)a, mo); T o = *a; *a = (T)~(o & v); return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
    at_pre((const void*)a, sizeof(T), true); T o = *a; \
    if (o == *e) { at_acq((const void*)a, mo); at_rel((const void*)a, mo); *a = v; return 1; } \
    at_acq((const void*)a, fmo); *e = o; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { \
    at_pre((const void*)a, sizeof(T), true); T o = *a; \
    if (o == e) { at_acq((const void*)a, mo); at_rel((const void*)a, mo); *a = v; } else at_acq((const void*)a, fmo); return o; }
AT(8, u8) AT(16, unsigned short) AT(32, u32) AT(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) {
  if (!cur || core_depth) return;
  Core c;  // over-approximated: every fence synchronises with every fence
  if (fence_clk->size() < cur->clk.size()) fence_clk->resize(cur->clk.size(), 0);
  rt_acquire(fence_clk);
  rt_release(fence_clk);
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// memcpy & co. of instrumented objects (linked with --wrap)
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (in_user() && n) { access(s, n, false, false); access(d, n, true, false); }
  return __real_memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (in_user() && n) { access(s, n, false, false); access(d, n, true, false); }
  return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int v, size_t n) {
  if (in_user() && n) access(d, n, true, false);
  return __real_memset(d, v, n);
}
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (in_user() && n) { access(a, n, false, false); access(b, n, false, false); }
  return __real_memcmp(a, b, n);
}
#endif
