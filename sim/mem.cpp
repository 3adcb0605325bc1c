#include "mem.hpp"
#include "core.hpp"
#include <cstdlib>
#include <new>

extern "C" const char *__asan_default_options() {
  return "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
         "handle_abort=0:detect_leaks=0:max_malloc_fill_size=1048576:"
         "malloc_fill_byte=190:max_free_fill_size=1048576:free_fill_byte=221:"
         "allocator_may_return_null=1:"
         "detect_odr_violation=0:quarantine_size_mb=4:"
         "thread_local_quarantine_size_kb=64:alloc_dealloc_mismatch=0:"
         "max_allocation_size_mb=512:abort_on_error=0";
}

namespace sim {
namespace mem {
static int g_nofail;
static uint64_t g_count;
static bool g_sticky, g_fired, g_refused, g_track;
static size_t g_cap = 64u << 20;
static size_t g_live;
static void *g_ptrs[4096]; // the blocks being tracked

static size_t g_min;
void fail_at(uint64_t k, size_t min) {
  g_count = k;
  g_min = min;
  g_sticky = false;
  g_fired = false;
}
void fail_from(uint64_t k) {
  g_count = k;
  g_min = 0;
  g_sticky = true;
  g_fired = false;
}
void off() { g_count = 0; }
bool fired() { return g_fired; }
void cap(size_t n) { g_cap = n; }
bool refused() { return g_refused; }
void track(bool on) { g_track = on; g_live = 0; }
size_t live_blocks() { return g_live; }
NoFail::NoFail() { g_nofail++; }
NoFail::~NoFail() { g_nofail--; }

static void reset() {
  g_nofail = 0;
  g_count = g_min = 0;
  g_fired = g_refused = g_track = false;
  g_cap = 64u << 20;
  g_live = 0;
}
static struct AtReset {
  AtReset() { at_reset(reset); }
} g_atReset;

static bool deny(size_t n) {
  if (!active())
    return false;
  if (n > g_cap) {
    if (!g_refused) {
      NoFail nf;
      ev("allocation of %zu bytes refused", n);
    }
    g_refused = true;
    count("fault.huge_allocation_refused");
    return true;
  }
  if (g_nofail || !g_count || n < g_min)
    return false;
  if (--g_count)
    return false;
  if (g_sticky)
    g_count = 1;
  g_fired = true;
  count("fault.allocation_failure");
  mix(0xa110c);
  shape(0xa110c);
  return true;
}
static void *get(size_t n) {
  if (deny(n))
    return nullptr;
  void *p = malloc(n ? n : 1);
  if (p && g_track && !g_nofail && g_live < sizeof g_ptrs / sizeof *g_ptrs)
    g_ptrs[g_live++] = p;
  return p;
}
static void put(void *p) {
  if (p && g_track)
    for (size_t i = g_live; i--;)
      if (g_ptrs[i] == p) {
        g_ptrs[i] = g_ptrs[--g_live];
        break;
      }
  free(p);
}
void *xml_alloc(size_t n) { return get(n); }
void xml_free(void *p) { put(p); }
} // namespace mem
} // namespace sim

void *operator new(size_t n) {
  void *p = sim::mem::get(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return sim::mem::get(n);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return sim::mem::get(n);
}
void operator delete(void *p) noexcept { sim::mem::put(p); }
void operator delete[](void *p) noexcept { sim::mem::put(p); }
void operator delete(void *p, size_t) noexcept { sim::mem::put(p); }
void operator delete[](void *p, size_t) noexcept { sim::mem::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept {
  sim::mem::put(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
  sim::mem::put(p);
}
