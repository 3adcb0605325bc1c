#include "threads.hpp"
#include "core.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <string>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>

#define INTERPOSE extern "C" __attribute__((visibility("default"), used))

namespace sim {

// ------------------------------------------------------------ raw syscalls
static long raw_syscall6(long n, long a, long b, long c, long d, long e,
                         long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

struct Gate {
  int v = 0;
  void open() {
    __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST);
    raw_syscall6(SYS_futex, (long)&v, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  }
  void pass() {
    while (!__atomic_load_n(&v, __ATOMIC_SEQ_CST))
      raw_syscall6(SYS_futex, (long)&v, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&v, 0, __ATOMIC_SEQ_CST);
  }
};

enum State { UNUSED, RUN, BLOCKED, DONE };

struct TlsDtor {
  void (*fn)(void *);
  void *obj;
};

struct Th {
  State st = UNUSED;
  Gate gate;
  pthread_t real{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  const void *key = nullptr; // what it waits for
  uint64_t deadline = 0;     // 0: none
  bool timedOut = false;
  bool woken = false;
  bool detached = false;
  uint64_t prio = 0;
  TlsDtor dtors[64];
  int nDtors = 0;
};

static constexpr int MAXT = 256;
static Th T[MAXT];
static int nT;
static int cur;
static bool on;          // simulated world is up
static bool everOn;
static ThreadCfg cfg;
static uint64_t simNow;  // ns
static int64_t wallSkew; // ns
static uint64_t steps, switches, created, g_seq;
static int alive;
static uint32_t budget = 1;
static int noPre;
static uint64_t pctLow = 1000000;
static thread_local int t_id = -1;

static inline bool in_sim() { return on && t_id >= 0 && t_id == cur; }

// ------------------------------------------------------------- arena
static char *arena;
static unsigned char *shadow;
static size_t arenaUsed;
static constexpr size_t ARENA = 256u << 20;
static uint64_t nAllocs, failNum;
static uint64_t failLeft[256]; // per thread: allocations until the armed failure
static uint64_t failFired[256];

static bool in_arena(const void *p) {
  return arena && (const char *)p >= arena && (const char *)p < arena + ARENA;
}

// ------------------------------------------------------------- scheduling
static uint32_t next_budget() {
  switch (cfg.policy) {
  case 0:
    return UINT_MAX; // only at sync points
  case 2:
    return UINT_MAX;
  default: {
    // geometric-ish: mixture of tiny and long intervals. 0 = longest.
    uint64_t r = draw(SCHED, 8);
    uint64_t m = cfg.meanInterval;
    static const uint32_t mulNum[8] = {64, 8, 4, 2, 2, 1, 1, 1};
    static const uint32_t mulDen[8] = {1, 1, 1, 1, 1, 2, 4, 16};
    uint64_t span = m * mulNum[r] / mulDen[r];
    if (span < 1)
      span = 1;
    return 1 + (uint32_t)(span - 1 - draw(SCHED, span));
  }
  }
}

static void no_progress(const char *why) {
  char b[1500];
  int n = 0;
  for (int i = 0; i < nT && n < 1300; i++)
    n += snprintf(b + n, sizeof b - n, " T%d:%s%s", i,
                  T[i].st == RUN ? "runnable"
                  : T[i].st == BLOCKED ? "blocked" : "done",
                  T[i].deadline ? "(timed)" : "");
  fail("progress", "%s; threads:%s", why, b);
}

static int pick(bool mustSwitch) {
  // candidates
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == RUN && !(mustSwitch && i == cur))
      c[n++] = i;
  if (!n)
    return -1;
  if (cfg.starveThread && n > 1) {
    int k = 0;
    for (int i = 0; i < n; i++)
      if (c[i] != (int)cfg.starveThread)
        c[k++] = c[i];
    n = k;
  }
  if (n == 1)
    return c[0];
  if (cfg.policy == 2) {
    int best = c[0];
    for (int i = 1; i < n; i++)
      if (T[c[i]].prio > T[best].prio)
        best = c[i];
    return best;
  }
  // choice 0: keep running the current thread if possible, else the lowest id
  int first = 0;
  for (int i = 0; i < n; i++)
    if (c[i] == cur)
      first = i;
  uint64_t d = draw(SCHED, n);
  return c[(first + d) % n];
}

static void handoff(int to) {
  if (to == cur)
    return;
  int from = cur;
  cur = to;
  switches++;
  mix(0x5157ull << 32 | (uint64_t)to);
  T[to].gate.open();
  T[from].gate.pass();
}

static void tick() {
  g_seq++;
  if (++steps > cfg.maxSteps)
    no_progress("scheduler step budget exhausted");
  simNow += 50; // each step costs 50 simulated ns
}

// Current thread stays runnable.
static void maybe_switch() {
  tick();
  if (cfg.policy == 2) {
    // priority change points
    if (chance(SCHED, 1, 40))
      T[cur].prio = pctLow--;
  }
  int to = pick(false);
  budget = next_budget();
  if (to >= 0 && to != cur) {
    shape((uint64_t)to + 1);
    handoff(to);
  }
}

// Current thread is blocked or done: run somebody else.
static void schedule_away(bool forever) {
  for (;;) {
    tick();
    int to = pick(false);
    if (to >= 0) {
      budget = next_budget();
      shape((uint64_t)to + 0x100);
      if (to == cur) // woken meanwhile (timeout)
        return;
      if (forever) {
        cur = to;
        switches++;
        mix(0x5158ull << 32 | (uint64_t)to);
        T[to].gate.open();
        return;
      }
      handoff(to);
      return;
    }
    // nobody runnable: jump the clock to the next deadline
    uint64_t best = UINT64_MAX;
    int bi = -1;
    for (int i = 0; i < nT; i++)
      if (T[i].st == BLOCKED && T[i].deadline && T[i].deadline < best) {
        best = T[i].deadline;
        bi = i;
      }
    if (bi < 0)
      no_progress("deadlock: every thread is blocked");
    if (best > simNow)
      simNow = best;
    if (simNow > cfg.maxSimSec * 1000000000ull)
      no_progress("simulated time budget exhausted");
    T[bi].st = RUN;
    T[bi].timedOut = true;
    T[bi].deadline = 0;
    T[bi].key = nullptr;
  }
}

// Wake timed waiters whose deadline has passed although others are runnable.
static void expire() {
  for (int i = 0; i < nT; i++)
    if (T[i].st == BLOCKED && T[i].deadline && T[i].deadline <= simNow) {
      T[i].st = RUN;
      T[i].timedOut = true;
      T[i].deadline = 0;
      T[i].key = nullptr;
    }
}

static void sync_point() {
  if (!in_sim() || noPre)
    return;
  expire();
  if (cfg.policy == 0) {
    if (chance(SCHED, 1, 3))
      maybe_switch();
    else
      tick();
    return;
  }
  maybe_switch();
}

static inline void access_point() {
  if (!on || t_id != cur || noPre)
    return;
  if (--budget == 0) {
    expire();
    maybe_switch();
  } else if (cfg.policy == 2 && (budget & 63) == 0) {
    expire();
    maybe_switch();
  }
}

// returns true when woken, false on timeout
static bool block_on(const void *key, uint64_t deadline) {
  Th &t = T[cur];
  t.st = BLOCKED;
  t.key = key;
  t.deadline = deadline;
  t.timedOut = false;
  int me = cur;
  schedule_away(false);
  T[me].key = nullptr;
  T[me].deadline = 0;
  return !T[me].timedOut;
}

static int wake(const void *key, int n, bool any) {
  int woken = 0;
  while (woken < n) {
    int c[MAXT], k = 0;
    for (int i = 0; i < nT; i++)
      if (T[i].st == BLOCKED && T[i].key == key)
        c[k++] = i;
    if (!k)
      break;
    int w = c[any && k > 1 && n == 1 ? draw(SCHED, k) : 0];
    T[w].st = RUN;
    T[w].key = nullptr;
    T[w].deadline = 0;
    T[w].timedOut = false;
    woken++;
  }
  return woken;
}

NoPreempt::NoPreempt() { noPre++; }
NoPreempt::~NoPreempt() { noPre--; }

uint64_t now_ns() { return simNow; }
int self_id() { return t_id; }
int live_threads() { return alive; }
uint64_t threads_created() { return created; }
uint64_t seq() { return g_seq; }
uint32_t thread_handle_low(int id) { return (uint32_t)(uintptr_t)T[id].real; }
void yield_point() { sync_point(); }
void set_alloc_fail(uint32_t n) { failNum = n; }
void alloc_fail_at(uint64_t k) {
  failLeft[self_id() & 255] = k;
  failFired[self_id() & 255] = 0;
}
bool alloc_fail_fired() { return failFired[self_id() & 255]; }
uint64_t allocs_done() { return nAllocs; }

static void do_sleep(uint64_t ns) {
  if (!ns)
    ns = 1;
  int key;
  block_on(&key, simNow + ns);
}
void sleep_ns(uint64_t ns) {
  if (in_sim() && !noPre)
    do_sleep(ns);
}

// ------------------------------------------------- happens-before (races)
// Vector clocks over the synchronisation the code performs itself. The
// simulator's own hand-offs create no order, so two accesses that only the
// schedule happened to separate are still reported.
typedef uint32_t Clk;
static Clk vcs[MAXT][MAXT];  // per thread
static Clk relf[MAXT][MAXT]; // clock at the last release fence
static Clk acqp[MAXT][MAXT]; // what relaxed loads have seen
static bool fenced;
static int unjoined; // created threads whose end nobody waited for yet
static bool raceOn;

struct SyncObj {
  const void *addr;
  Clk vc[MAXT];
};
static constexpr int SYN = 8192;
static SyncObj syncs[SYN];
static int nSyncs;
static SyncObj *sync_obj(const void *a) {
  size_t h = ((uintptr_t)a) * 0x9E3779B97F4A7C15ull >> 40;
  for (int i = 0; i < SYN; i++) {
    SyncObj *m = &syncs[(h + i) % SYN];
    if (m->addr == a)
      return m;
    if (!m->addr) {
      if (++nSyncs > SYN * 3 / 4)
        raceOn = false; // give up rather than to miss an order
      m->addr = a;
      return m;
    }
  }
  return nullptr;
}
static void vjoin(Clk *to, const Clk *from) {
  for (int i = 0; i < nT; i++)
    if (to[i] < from[i])
      to[i] = from[i];
}
static inline bool hb_live() { return raceOn && on && t_id == cur; }
static void hb_acquire(const void *a) {
  if (hb_live())
    if (SyncObj *o = sync_obj(a))
      vjoin(vcs[cur], o->vc);
}
static void hb_release(const void *a) {
  if (hb_live())
    if (SyncObj *o = sync_obj(a)) {
      vjoin(o->vc, vcs[cur]);
      vcs[cur][cur]++;
    }
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static void hb_atomic(const void *a, int mo, bool ld, bool st) {
  if (!hb_live() || noPre || nT < 2)
    return;
  mo &= 0xff;
  SyncObj *o = sync_obj(a);
  if (!o)
    return;
  if (ld) {
    if (mo == 0 || mo == 3)
      vjoin(acqp[cur], o->vc);
    else
      vjoin(vcs[cur], o->vc);
  }
  if (st) {
    if (!ld) // a plain store starts a new release sequence
      memset(o->vc, 0, sizeof(Clk) * nT);
    if (mo >= 3) {
      vjoin(o->vc, vcs[cur]);
      vcs[cur][cur]++;
    } else if (fenced)
      vjoin(o->vc, relf[cur]);
  }
}
static void hb_fence(int mo) {
  if (!hb_live())
    return;
  mo &= 0xff;
  if (mo == 1 || mo == 2 || mo >= 4)
    vjoin(vcs[cur], acqp[cur]);
  if (mo >= 3) {
    fenced = true;
    memcpy(relf[cur], vcs[cur], sizeof(Clk) * nT);
    vcs[cur][cur]++;
  }
}

struct Cell {
  Clk clk;
  uint8_t tid, mask, kind; // kind: 1 write, 2 atomic
  const void *pc;
};
struct Gran {
  uintptr_t key;
  Cell c[4];
};
static constexpr size_t GRN = 1u << 18;
static Gran *grans;
static size_t nGrans, evictions;

static void race_reset() {
  if (grans && nGrans)
    madvise(grans, GRN * sizeof(Gran), MADV_DONTNEED);
  nGrans = 0;
}

static std::string where(const void *pc) {
  Dl_info i;
  char b[300];
  if (dladdr(pc, &i) && i.dli_fbase) {
    if (i.dli_sname)
      snprintf(b, sizeof b, "%.200s+0x%lx", i.dli_sname,
               (unsigned long)((const char *)pc - (const char *)i.dli_saddr));
    else
      snprintf(b, sizeof b, "code offset 0x%lx",
               (unsigned long)((const char *)pc - (const char *)i.dli_fbase));
    return b;
  }
  return "?";
}

static void race_gran(uintptr_t key, uint8_t mask, uint8_t kind,
                      const void *pc) {
  size_t at = key & (GRN - 1);
  Gran *g;
  for (;; at = (at + 1) & (GRN - 1)) {
    g = &grans[at];
    if (g->key == key)
      break;
    if (!g->key) {
      if (++nGrans > GRN / 2) {
        raceOn = false;
        return;
      }
      g->key = key;
      break;
    }
  }
  const Clk *my = vcs[cur];
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    Cell &c = g->c[i];
    if (!c.mask) {
      if (slot < 0)
        slot = i;
      continue;
    }
    if (c.tid == cur) {
      if (c.clk == my[cur] && (c.mask & mask) == mask && c.kind == kind)
        return;
      if ((mask & c.mask) == c.mask && (kind == c.kind || kind == 1))
        slot = i;
      continue;
    }
    bool ordered = c.clk <= my[c.tid];
    if (!ordered && (c.mask & mask) && ((c.kind | kind) & 1) &&
        !(c.kind & kind & 2)) {
      std::string a = where(c.pc), b = where(pc);
      fail("memory.data-race",
           "a %s by thread %d and a %s by thread %d of the same memory are "
           "not ordered by any synchronisation; at %s and %s",
           c.kind & 2 ? "atomic access" : c.kind & 1 ? "write" : "read", c.tid,
           kind & 2 ? "atomic access" : kind & 1 ? "write" : "read", cur,
           a.c_str(), b.c_str());
    }
    if (ordered && (mask & c.mask) == c.mask && (kind & 1) && !(kind & 2))
      slot = i; // superseded by a later write
  }
  if (slot < 0) {
    // prefer to forget an access that is already ordered before this one
    for (int i = 0; i < 4 && slot < 0; i++)
      if (g->c[i].clk <= my[g->c[i].tid])
        slot = i;
    if (slot < 0)
      slot = evictions & 3;
    evictions++;
  }
  g->c[slot] = {my[cur], (uint8_t)cur, mask, kind, pc};
}

static inline void race(const void *a, size_t n, uint8_t kind, const void *pc) {
  if (!raceOn || nT < 2 || noPre || !on || t_id != cur)
    return;
  uintptr_t p = (uintptr_t)a, e = p + n;
  while (p < e) {
    uintptr_t k = p >> 3;
    unsigned lo = p & 7, hi = e - (k << 3) < 8 ? e - (k << 3) : 8;
    race_gran(k, (uint8_t)(((1u << (hi - lo)) - 1) << lo), kind, pc);
    p = (k + 1) << 3;
  }
}

// ----------------------------------------------------------- real functions
template <class F> static F real_fn(const char *n) {
  return (F)dlsym(RTLD_NEXT, n);
}
#define REAL(name)                                                             \
  static decltype(&::name) r_##name;                                           \
  if (!r_##name)                                                               \
  r_##name = real_fn<decltype(&::name)>(#name)

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                        void *);
static create_t r_create;

void threads_begin(const ThreadCfg &c) {
  cfg = c;
  if (!r_create)
    r_create = real_fn<create_t>("pthread_create");
  if (!arena) {
    arena = (char *)mmap((void *)0x600000000000ull, ARENA,
                         PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                   -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED)
      fail("harness.mmap", "no arena");
    arenaUsed = 64;
  }
  nT = 1;
  cur = 0;
  t_id = 0;
  T[0].st = RUN;
  T[0].real = pthread_self();
  T[0].prio = 2000000 + draw(SCHED, 1000);
  simNow = 1000000000ull;
  wallSkew = 0;
  steps = switches = created = 0;
  alive = 0;
  failNum = cfg.allocFailNum;
  memset(failLeft, 0, sizeof failLeft);
  raceOn = cfg.races;
  if (raceOn && !grans) {
    grans = (Gran *)mmap(nullptr, GRN * sizeof(Gran), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (grans == MAP_FAILED)
      fail("harness.mmap", "no shadow table");
  }
  vcs[0][0] = 1;
  budget = next_budget();
  on = everOn = true;
}

void threads_end() {
  on = false;
  add_steps(steps);
  add_time_ns(simNow - 1000000000ull);
  count("sched.context_switches", switches);
  count("sched.threads_created", created);
}

static void *trampoline(void *p) {
  Th *t = (Th *)p;
  t_id = (int)(t - T);
  t->gate.pass();
  t->ret = t->fn(t->arg);
  // thread_local destructors run inside of the simulated world
  while (t->nDtors) {
    TlsDtor d = t->dtors[--t->nDtors];
    d.fn(d.obj);
  }
  t->st = DONE;
  alive--;
  wake(t, MAXT, false);
  schedule_away(true);
  // never really exits: nothing of it may run outside of the schedule
  static int forever = 0;
  for (;;)
    raw_syscall6(SYS_futex, (long)&forever, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}

// ------------------------------------------------------------ mutex table
struct Mx {
  const void *addr;
  int owner; // -1 free
  int depth;
  int readers;
};
static constexpr int MXN = 4096;
static Mx mxs[MXN];
static Mx *mx(const void *a) {
  size_t h = ((uintptr_t)a >> 3) * 0x9E3779B97F4A7C15ull >> 40;
  for (int i = 0; i < MXN; i++) {
    Mx *m = &mxs[(h + i) % MXN];
    if (m->addr == a)
      return m;
    if (!m->addr) {
      m->addr = a;
      m->owner = -1;
      m->depth = m->readers = 0;
      return m;
    }
  }
  fail("harness.mutex_table", "mutex table full");
}
static void mx_reset(const void *a) {
  Mx *m = mx(a);
  m->owner = -1;
  m->depth = m->readers = 0;
}

static int kind_of(pthread_mutex_t *m) { return m->__data.__kind & 3; }

static int lock_impl(pthread_mutex_t *m, bool tr, uint64_t deadline) {
  sync_point();
  Mx *x = mx(m);
  for (;;) {
    if (x->owner < 0 && !x->readers) {
      x->owner = cur;
      x->depth = 1;
      hb_acquire(m);
      return 0;
    }
    if (x->owner == cur) {
      int k = kind_of(m);
      if (k == PTHREAD_MUTEX_RECURSIVE_NP) {
        x->depth++;
        return 0;
      }
      if (k == PTHREAD_MUTEX_ERRORCHECK_NP)
        return EDEADLK;
      if (!tr && !deadline)
        fail("progress", "self-deadlock: a thread locks a mutex it holds");
    }
    if (tr)
      return EBUSY;
    count("sched.mutex_contended");
    if (!block_on(x, deadline))
      return ETIMEDOUT;
  }
}
static int unlock_impl(pthread_mutex_t *m) {
  Mx *x = mx(m);
  if (x->owner != cur)
    fail("progress", "a mutex is unlocked by a thread that does not hold it");
  if (--x->depth == 0) {
    x->owner = -1;
    hb_release(m);
    wake(x, 1, true);
  }
  sync_point();
  return 0;
}

static uint64_t mono_deadline(const timespec *ts) {
  return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
}
static uint64_t real_now() {
  return cfg.epochSec * 1000000000ull + simNow + wallSkew;
}
static uint64_t real_deadline(const timespec *ts) {
  uint64_t w = mono_deadline(ts), n = real_now();
  return w <= n ? simNow + 1 : simNow + (w - n);
}

static void maybe_clock_jump() {
  if (cfg.clockJumpNum && chance(FAULT, cfg.clockJumpNum, 64)) {
    int64_t j = (int64_t)(draw(FAULT, 7200) + 1) * 1000000000ll;
    if (draw(FAULT, 2))
      j = -j;
    wallSkew += j;
    count("fault.clock_jump");
    ev("fault: wall clock jumps by %ld s", (long)(j / 1000000000ll));
  }
}

static int sim_clock(clockid_t id, timespec *ts) {
  sync_point();
  uint64_t v;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    maybe_clock_jump();
    v = real_now();
  } else
    v = simNow;
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}

static long sim_futex(int *addr, int op, int val, const timespec *ts,
                      uint32_t) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_point();
    hb_acquire(addr);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    if (cfg.spuriousNum && chance(FAULT, cfg.spuriousNum, 64)) {
      count("fault.spurious_wakeup");
      simNow += 1000;
      errno = EINTR;
      return -1;
    }
    uint64_t dl = 0;
    if (ts) {
      if (cmd == FUTEX_WAIT)
        dl = simNow + mono_deadline(ts);
      else if (op & FUTEX_CLOCK_REALTIME)
        dl = real_deadline(ts);
      else
        dl = mono_deadline(ts);
      if (dl <= simNow)
        dl = simNow + 1;
    }
    if (!block_on(addr, dl)) {
      errno = ETIMEDOUT;
      return -1;
    }
    hb_acquire(addr);
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    hb_release(addr);
    int n = wake(addr, val < 0 ? MAXT : (val > MAXT ? MAXT : val), true);
    sync_point();
    return n;
  }
  fail("harness.futex_op", "unmodelled futex operation %d", cmd);
}

// --------------------------------------------------------- tsan hooks
static inline void chk(const void *a, size_t n, bool wr,
                       const void *pc = nullptr, bool atomic = false) {
  if (on && in_arena(a)) {
    size_t o = (const char *)a - arena;
    for (size_t i = 0; i < n && o + i < ARENA; i++)
      if (shadow[o + i] != 1) {
        if (shadow[o + i] == 2)
          fail("memory.use-after-free",
               "%s of %zu bytes in freed memory by thread %d",
               wr ? "write" : "read", n, t_id);
        fail("memory.out-of-bounds",
             "%s of %zu bytes outside of an allocation by thread %d",
             wr ? "write" : "read", n, t_id);
      }
  }
  access_point();
  race(a, n, (wr ? 1 : 0) | (atomic ? 2 : 0), pc);
}

} // namespace sim

using namespace sim;

// -------------------------------------------------------------- interposers
INTERPOSE int pthread_create(pthread_t *out, const pthread_attr_t *a,
                             void *(*fn)(void *), void *arg) {
  if (!in_sim()) {
    if (!r_create)
      r_create = real_fn<create_t>("pthread_create");
    return r_create(out, a, fn, arg);
  }
  sync_point();
  created++;
  bool failNow = cfg.createFailAt && created == cfg.createFailAt;
  if (!failNow && cfg.createFailNum)
    failNow = chance(FAULT, cfg.createFailNum, 64);
  if (!failNow && cfg.createLimit && alive >= (int)cfg.createLimit) {
    failNow = true;
    count("fault.thread_limit");
  }
  if (failNow) {
    count("fault.thread_create_eagain");
    ev("fault: thread creation #%lu fails with EAGAIN", created);
    return EAGAIN;
  }
  if (nT >= MAXT)
    fail("harness.threads", "too many threads");
  Th *t = &T[nT];
  t->fn = fn;
  t->arg = arg;
  t->st = RUN;
  t->detached = false;
  if (a) {
    int ds = 0;
    pthread_attr_getdetachstate(a, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  t->prio = 1000001 + draw(SCHED, 2000000);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 << 10);
  on = false; // allocations of the real pthread_create stay real
  int r = r_create(&t->real, &at, trampoline, t);
  on = true;
  pthread_attr_destroy(&at);
  if (r)
    fail("harness.pthread", "real pthread_create failed: %d", r);
  nT++;
  alive++;
  unjoined++;
  if (raceOn) {
    int id = nT - 1;
    memcpy(vcs[id], vcs[cur], sizeof(Clk) * nT);
    vcs[id][id] = 1;
    vcs[cur][cur]++;
  }
  *out = t->real;
  mix(0xC0 + nT);
  sync_point();
  return 0;
}

static Th *by_handle(pthread_t h) {
  for (int i = 0; i < nT; i++)
    if (pthread_equal(T[i].real, h))
      return &T[i];
  return nullptr;
}

INTERPOSE int pthread_join(pthread_t h, void **ret) {
  if (!in_sim()) {
    static int (*r)(pthread_t, void **);
    if (!r)
      r = real_fn<decltype(r)>("pthread_join");
    return r(h, ret);
  }
  sync_point();
  Th *t = by_handle(h);
  if (!t)
    return ESRCH;
  if (t == &T[cur])
    return EDEADLK;
  while (t->st != DONE)
    block_on(t, 0);
  if (raceOn)
    vjoin(vcs[cur], vcs[t - T]);
  if (--unjoined == 0 && cur == 0)
    race_reset(); // everything is ordered before what follows
  if (ret)
    *ret = t->ret;
  return 0;
}
INTERPOSE int pthread_detach(pthread_t h) {
  if (!in_sim()) {
    static int (*r)(pthread_t);
    if (!r)
      r = real_fn<decltype(r)>("pthread_detach");
    return r(h);
  }
  Th *t = by_handle(h);
  if (t)
    t->detached = true;
  return t ? 0 : ESRCH;
}

#define PASS(ret, name, params, args)                                          \
  static ret(*r) params;                                                       \
  if (!r)                                                                      \
    r = real_fn<decltype(r)>(#name);                                           \
  return r args;

INTERPOSE int pthread_mutex_lock(pthread_mutex_t *m) {
  if (in_sim())
    return noPre ? 0 : lock_impl(m, false, 0);
  PASS(int, pthread_mutex_lock, (pthread_mutex_t *), (m))
}
INTERPOSE int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (in_sim())
    return noPre ? 0 : lock_impl(m, true, 0);
  PASS(int, pthread_mutex_trylock, (pthread_mutex_t *), (m))
}
INTERPOSE int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
  if (in_sim())
    return lock_impl(m, false, real_deadline(ts));
  PASS(int, pthread_mutex_timedlock, (pthread_mutex_t *, const timespec *),
       (m, ts))
}
INTERPOSE int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c,
                                      const timespec *ts) {
  if (in_sim())
    return lock_impl(m, false,
                     c == CLOCK_MONOTONIC ? mono_deadline(ts)
                                          : real_deadline(ts));
  PASS(int, pthread_mutex_clocklock,
       (pthread_mutex_t *, clockid_t, const timespec *), (m, c, ts))
}
INTERPOSE int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (in_sim())
    return noPre ? 0 : unlock_impl(m);
  PASS(int, pthread_mutex_unlock, (pthread_mutex_t *), (m))
}
INTERPOSE int pthread_mutex_init(pthread_mutex_t *m,
                                 const pthread_mutexattr_t *a) {
  if (in_sim())
    mx_reset(m);
  PASS(int, pthread_mutex_init,
       (pthread_mutex_t *, const pthread_mutexattr_t *), (m, a))
}
INTERPOSE int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (in_sim()) {
    mx_reset(m);
    return 0;
  }
  PASS(int, pthread_mutex_destroy, (pthread_mutex_t *), (m))
}

// rwlocks
static int rw_impl(const void *m, bool wr, bool tr, uint64_t dl) {
  sync_point();
  Mx *x = mx(m);
  for (;;) {
    if (wr ? (x->owner < 0 && !x->readers) : x->owner < 0) {
      if (wr)
        x->owner = cur;
      else
        x->readers++;
      hb_acquire(m);
      if (wr)
        hb_acquire((const char *)m + 1);
      return 0;
    }
    if (tr)
      return EBUSY;
    if (!block_on(x, dl))
      return ETIMEDOUT;
  }
}
INTERPOSE int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (in_sim())
    return rw_impl(m, false, false, 0);
  PASS(int, pthread_rwlock_rdlock, (pthread_rwlock_t *), (m))
}
INTERPOSE int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (in_sim())
    return rw_impl(m, true, false, 0);
  PASS(int, pthread_rwlock_wrlock, (pthread_rwlock_t *), (m))
}
INTERPOSE int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  if (in_sim())
    return rw_impl(m, false, true, 0);
  PASS(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *), (m))
}
INTERPOSE int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  if (in_sim())
    return rw_impl(m, true, true, 0);
  PASS(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *), (m))
}
INTERPOSE int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (in_sim()) {
    Mx *x = mx(m);
    if (x->owner == cur) {
      x->owner = -1;
      hb_release(m);
    } else if (x->readers > 0) {
      x->readers--;
      hb_release((const char *)m + 1);
    }
    wake(x, MAXT, false);
    sync_point();
    return 0;
  }
  PASS(int, pthread_rwlock_unlock, (pthread_rwlock_t *), (m))
}
INTERPOSE int pthread_rwlock_destroy(pthread_rwlock_t *m) {
  if (in_sim()) {
    mx_reset(m);
    return 0;
  }
  PASS(int, pthread_rwlock_destroy, (pthread_rwlock_t *), (m))
}

// condition variables
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  sync_point();
  Mx *x = mx(m);
  int depth = x->depth;
  x->owner = -1;
  x->depth = 0;
  hb_release(m);
  wake(x, 1, true);
  bool ok = true;
  if (cfg.spuriousNum && chance(FAULT, cfg.spuriousNum, 64)) {
    count("fault.spurious_wakeup");
    sync_point();
  } else
    ok = block_on(c, dl);
  lock_impl(m, false, 0);
  mx(m)->depth = depth;
  return ok ? 0 : ETIMEDOUT;
}
INTERPOSE int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (in_sim())
    return cond_wait_impl(c, m, 0);
  PASS(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *), (c, m))
}
INTERPOSE int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                     const timespec *ts) {
  if (in_sim())
    return cond_wait_impl(c, m, real_deadline(ts));
  PASS(int, pthread_cond_timedwait,
       (pthread_cond_t *, pthread_mutex_t *, const timespec *), (c, m, ts))
}
INTERPOSE int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                     clockid_t id, const timespec *ts) {
  if (in_sim())
    return cond_wait_impl(
        c, m, id == CLOCK_MONOTONIC ? mono_deadline(ts) : real_deadline(ts));
  PASS(int, pthread_cond_clockwait,
       (pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *),
       (c, m, id, ts))
}
INTERPOSE int pthread_cond_signal(pthread_cond_t *c) {
  if (in_sim()) {
    wake(c, 1, true);
    sync_point();
    return 0;
  }
  PASS(int, pthread_cond_signal, (pthread_cond_t *), (c))
}
INTERPOSE int pthread_cond_broadcast(pthread_cond_t *c) {
  if (in_sim()) {
    wake(c, MAXT, false);
    sync_point();
    return 0;
  }
  PASS(int, pthread_cond_broadcast, (pthread_cond_t *), (c))
}

// semaphores (count kept in the object itself)
INTERPOSE int sem_wait(sem_t *s) {
  if (in_sim()) {
    sync_point();
    while (*(volatile int *)s <= 0)
      block_on(s, 0);
    --*(volatile int *)s;
    hb_acquire(s);
    return 0;
  }
  PASS(int, sem_wait, (sem_t *), (s))
}
INTERPOSE int sem_trywait(sem_t *s) {
  if (in_sim()) {
    sync_point();
    if (*(volatile int *)s <= 0) {
      errno = EAGAIN;
      return -1;
    }
    --*(volatile int *)s;
    hb_acquire(s);
    return 0;
  }
  PASS(int, sem_trywait, (sem_t *), (s))
}
INTERPOSE int sem_post(sem_t *s) {
  if (in_sim()) {
    ++*(volatile int *)s;
    hb_release(s);
    wake(s, 1, true);
    sync_point();
    return 0;
  }
  PASS(int, sem_post, (sem_t *), (s))
}

// once
struct Once {
  const void *a;
  int st; // 1 running 2 done
};
static Once onces[1024];
INTERPOSE int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!in_sim()) {
    PASS(int, pthread_once, (pthread_once_t *, void (*)(void)), (o, fn))
  }
  sync_point();
  // state lives in the object, so that re-used memory starts afresh:
  // 0 new, 0x5101 running, 2 done (what glibc uses for done)
  volatile int *v = (volatile int *)o;
  for (;;) {
    if (*v == 2) {
      hb_acquire(o);
      return 0;
    }
    if (*v == 0) {
      hb_acquire(o);
      *v = 0x5101;
      struct Guard {
        volatile int *v;
        bool ok = false;
        ~Guard() {
          *v = ok ? 2 : 0;
          hb_release((const void *)v);
          wake((const void *)v, MAXT, false);
        }
      } g{v};
      fn();
      g.ok = true;
      return 0;
    }
    block_on((const void *)o, 0);
  }
}

// time
INTERPOSE int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (in_sim())
    return sim_clock(id, ts);
  return (int)raw_syscall6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}
INTERPOSE int gettimeofday(struct timeval *tv, void *tz) noexcept {
  if (in_sim()) {
    timespec ts;
    sim_clock(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  return (int)raw_syscall6(SYS_gettimeofday, (long)tv, (long)tz, 0, 0, 0, 0);
}
INTERPOSE time_t time(time_t *t) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
INTERPOSE int nanosleep(const timespec *a, timespec *rem) {
  if (in_sim()) {
    if (cfg.spuriousNum && chance(FAULT, cfg.spuriousNum, 64)) {
      count("fault.sleep_eintr");
      uint64_t all = mono_deadline(a), did = all / 2;
      do_sleep(did);
      if (rem) {
        rem->tv_sec = (all - did) / 1000000000ull;
        rem->tv_nsec = (all - did) % 1000000000ull;
      }
      errno = EINTR;
      return -1;
    }
    do_sleep(mono_deadline(a));
    return 0;
  }
  PASS(int, nanosleep, (const timespec *, timespec *), (a, rem))
}
INTERPOSE int clock_nanosleep(clockid_t id, int flags, const timespec *a,
                              timespec *rem) {
  if (in_sim()) {
    if (flags & TIMER_ABSTIME) {
      uint64_t dl =
          id == CLOCK_REALTIME ? real_deadline(a) : mono_deadline(a);
      do_sleep(dl > simNow ? dl - simNow : 1);
    } else
      do_sleep(mono_deadline(a));
    return 0;
  }
  PASS(int, clock_nanosleep, (clockid_t, int, const timespec *, timespec *),
       (id, flags, a, rem))
}
INTERPOSE int usleep(useconds_t us) {
  if (in_sim()) {
    do_sleep((uint64_t)us * 1000);
    return 0;
  }
  PASS(int, usleep, (useconds_t), (us))
}
INTERPOSE unsigned sleep(unsigned s) {
  if (in_sim()) {
    do_sleep((uint64_t)s * 1000000000ull);
    return 0;
  }
  PASS(unsigned, sleep, (unsigned), (s))
}
INTERPOSE int sched_yield() noexcept {
  if (in_sim()) {
    simNow += 1000;
    expire();
    // a yield loop must not starve the others
    if (!noPre) {
      tick();
      int to = pick(true);
      if (to >= 0) {
        budget = next_budget();
        handoff(to);
      } else {
        // alone: let time pass to the next deadline
        bool timed = false;
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < nT; i++)
          if (T[i].st == BLOCKED && T[i].deadline && T[i].deadline < best) {
            best = T[i].deadline;
            timed = true;
          }
        if (timed) {
          simNow = best > simNow ? best : simNow;
          expire();
        }
      }
    }
    return 0;
  }
  return (int)raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
INTERPOSE int get_nprocs() noexcept {
  if (in_sim()) {
    sync_point();
    return (int)cfg.hwThreads;
  }
  return 4;
}
INTERPOSE long sysconf(int n) noexcept {
  if (in_sim() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF))
    return cfg.hwThreads;
  PASS(long, sysconf, (int), (n))
}
INTERPOSE int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) noexcept {
  if (in_sim()) {
    memset(s, 0, n);
    for (unsigned i = 0; i < cfg.hwThreads; i++)
      CPU_SET_S(i, n, s);
    return 0;
  }
  PASS(int, sched_getaffinity, (pid_t, size_t, cpu_set_t *), (p, n, s))
}
namespace std {
struct sim_thread_tag;
}
INTERPOSE unsigned _ZNSt6thread20hardware_concurrencyEv() {
  if (in_sim()) {
    sync_point();
    return cfg.hwThreads;
  }
  return 4;
}

INTERPOSE long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (in_sim()) {
    if (n == SYS_futex)
      return sim_futex((int *)a, (int)b, (int)c, (const timespec *)d,
                       (uint32_t)f);
    if (n == SYS_clock_gettime)
      return sim_clock((clockid_t)a, (timespec *)b);
    if (n == SYS_gettimeofday)
      return gettimeofday((timeval *)a, nullptr);
    if (n == SYS_sched_yield)
      return sched_yield();
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

INTERPOSE int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  if (in_sim() && t_id > 0) {
    Th &t = T[t_id];
    if (t.nDtors >= 64)
      fail("harness.tls", "too many thread_local destructors");
    t.dtors[t.nDtors++] = {fn, obj};
    return 0;
  }
  static int (*r)(void (*)(void *), void *, void *);
  if (!r)
    r = real_fn<decltype(r)>("__cxa_thread_atexit_impl");
  return r(fn, obj, dso);
}

// ------------------------------------------------------------- allocation
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

static void *arena_alloc(size_t n, size_t al) {
  size_t hdr = 32;
  size_t o = arenaUsed + hdr;
  if (al < 16)
    al = 16;
  o = (o + al - 1) & ~(al - 1);
  if (n > ARENA || o + n + 48 > ARENA)
    return nullptr;
  arenaUsed = (o + n + 32 + 15) & ~(size_t)15;
  memcpy(arena + o - 8, &n, 8);
  // uninitialised memory has a recognisable, deterministic content
  memset(arena + o, 0xA5, n);
  memset(shadow + o, 1, n);
  return arena + o;
}

static bool alloc_fault() {
  nAllocs++;
  if (noPre)
    return false;
  uint64_t &left = failLeft[t_id & 255];
  if (left && !--left) {
    failFired[t_id & 255] = 1;
    count("fault.alloc_failure");
    ev("fault: allocation fails");
    return true;
  }
  if (failNum && chance(FAULT, failNum, 1024)) {
    count("fault.alloc_failure");
    ev("fault: allocation fails");
    return true;
  }
  return false;
}

INTERPOSE void *malloc(size_t n) noexcept {
  if (in_sim()) {
    if (alloc_fault()) {
      errno = ENOMEM;
      return nullptr;
    }
    return arena_alloc(n, 16);
  }
  return __libc_malloc(n);
}
INTERPOSE void free(void *p) noexcept {
  if (in_arena(p)) {
    size_t o = (char *)p - arena, n;
    memcpy(&n, arena + o - 8, 8);
    if (on && n && shadow[o] == 2)
      fail("memory.double-free", "memory is freed twice");
    if (n <= ARENA) {
      memset(shadow + o, 2, n);
      if (on)
        memset(p, 0xDD, n);
    }
    return;
  }
  __libc_free(p);
}
INTERPOSE void *calloc(size_t a, size_t b) noexcept {
  if (in_sim()) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || alloc_fault()) {
      errno = ENOMEM;
      return nullptr;
    }
    void *p = arena_alloc(n, 16);
    if (p)
      memset(p, 0, n);
    return p;
  }
  return __libc_calloc(a, b);
}
INTERPOSE void *realloc(void *p, size_t n) noexcept {
  if (in_arena(p) || (in_sim() && !p)) {
    size_t old = 0;
    if (p)
      memcpy(&old, (char *)p - 8, 8);
    void *q = malloc(n);
    if (q && p) {
      memcpy(q, p, old < n ? old : n);
      free(p);
    }
    return q;
  }
  return __libc_realloc(p, n);
}
INTERPOSE void *memalign(size_t al, size_t n) noexcept {
  if (in_sim())
    return alloc_fault() ? nullptr : arena_alloc(n, al);
  return __libc_memalign(al, n);
}
INTERPOSE void *aligned_alloc(size_t al, size_t n) noexcept {
  return memalign(al, n);
}
INTERPOSE int posix_memalign(void **o, size_t al, size_t n) noexcept {
  void *p = memalign(al, n);
  if (!p)
    return ENOMEM;
  *o = p;
  return 0;
}
void *operator new(size_t n) {
  sync_point();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return malloc(n ? n : 1);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return malloc(n ? n : 1);
}
void operator delete(void *p) noexcept {
  sync_point();
  free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------ tsan instrumentation
#define RA __builtin_return_address(0)
#define RW(n)                                                                  \
  INTERPOSE void __tsan_read##n(void *a) { chk(a, n, false, RA); }                 \
  INTERPOSE void __tsan_write##n(void *a) { chk(a, n, true, RA); }                 \
  INTERPOSE void __tsan_read##n##_pc(void *a, void *) { chk(a, n, false, RA); }    \
  INTERPOSE void __tsan_write##n##_pc(void *a, void *) { chk(a, n, true, RA); }    \
  INTERPOSE void __tsan_unaligned_read##n(void *a) { chk(a, n, false, RA); }       \
  INTERPOSE void __tsan_unaligned_write##n(void *a) { chk(a, n, true, RA); }       \
  INTERPOSE void __tsan_volatile_read##n(void *a) { chk(a, n, false, RA); }        \
  INTERPOSE void __tsan_volatile_write##n(void *a) { chk(a, n, true, RA); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
INTERPOSE void __tsan_read_range(void *a, long n) { chk(a, n, false, RA); }
INTERPOSE void __tsan_write_range(void *a, long n) { chk(a, n, true, RA); }
INTERPOSE void __tsan_init() {}
INTERPOSE void __tsan_func_entry(void *) {}
INTERPOSE void __tsan_func_exit() {}
INTERPOSE void __tsan_vptr_update(void **a, void *) { chk(a, 8, true, RA); }
INTERPOSE void __tsan_vptr_read(void **a) { chk(a, 8, false, RA); }
INTERPOSE void __tsan_atomic_thread_fence(int mo) {
  sync_point();
  hb_fence(mo);
}
INTERPOSE void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T)                                                            \
  INTERPOSE T __tsan_atomic##bits##_load(const volatile T *a, int mo) {        \
    chk((void *)a, sizeof(T), false, RA, true);                                \
    hb_atomic((void *)a, mo, true, false);                                     \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  INTERPOSE void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {     \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, false, true);                                     \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {     \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {    \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {    \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {    \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {     \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {    \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {   \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    hb_atomic((void *)a, mo, true, true);                                      \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  INTERPOSE int __tsan_atomic##bits##_compare_exchange_strong(                 \
      volatile T *a, T *e, T v, int mo, int fmo) {                             \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST,    \
                                          __ATOMIC_SEQ_CST);                   \
    hb_atomic((void *)a, ok ? mo : fmo, true, ok);                             \
    return ok;                                                                 \
  }                                                                            \
  INTERPOSE int __tsan_atomic##bits##_compare_exchange_weak(                   \
      volatile T *a, T *e, T v, int mo, int fmo) {                             \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST,    \
                                          __ATOMIC_SEQ_CST);                   \
    hb_atomic((void *)a, ok ? mo : fmo, true, ok);                             \
    return ok;                                                                 \
  }                                                                            \
  INTERPOSE T __tsan_atomic##bits##_compare_exchange_val(                      \
      volatile T *a, T e, T v, int mo, int fmo) {                              \
    chk((void *)a, sizeof(T), true, RA, true);                                 \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST,   \
                                          __ATOMIC_SEQ_CST);                   \
    hb_atomic((void *)a, ok ? mo : fmo, true, ok);                             \
    return e;                                                                  \
  }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)

// Static initialisation: the guard is set inside of the C++ runtime.
INTERPOSE int __cxa_guard_acquire(unsigned long *g) {
  static int (*r)(unsigned long *);
  if (!r)
    r = real_fn<decltype(r)>("__cxa_guard_acquire");
  int n = r(g);
  if (in_sim())
    hb_acquire(g);
  return n;
}
INTERPOSE void __cxa_guard_release(unsigned long *g) {
  static void (*r)(unsigned long *);
  if (!r)
    r = real_fn<decltype(r)>("__cxa_guard_release");
  if (in_sim())
    hb_release(g);
  r(g);
}
