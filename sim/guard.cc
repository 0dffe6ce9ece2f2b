// Static-initialisation guards (kept apart: <cxxabi.h> declares them with
// another parameter type).
#include "internal.h"
namespace sim { WaitQ& once_q(const void* key); }
using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default"), used))
EXPORT int __cxa_guard_acquire(u64* gd) {
  u8* b = (u8*)gd;
  if (b[0]) { if (in_user()) { Core c; rt_acquire(gd); } return 0; }
  if (in_user()) {
    Core c;
    while (b[1]) wait_on(once_q(gd), "static initialisation");
    if (b[0]) { rt_acquire(gd); return 0; }
  }
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(u64* gd) {
  u8* b = (u8*)gd;
  b[1] = 0;
  b[0] = 1;
  if (in_user()) { Core c; rt_release(gd); wake_all(once_q(gd)); }
}
EXPORT void __cxa_guard_abort(u64* gd) {
  u8* b = (u8*)gd;
  b[1] = 0;
  if (in_user()) { Core c; wake_all(once_q(gd)); }
}
