#include "core.hpp"
#include <csignal>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
#include <initializer_list>

// All bookkeeping below uses static or shared memory only: nothing here may
// allocate while a run is active, because the allocator may be simulated.

namespace sim {

static constexpr uint32_t TAPE_CAP = 1u << 19;
static constexpr uint32_t LOG_CAP = 1u << 19;
static constexpr int MAX_COUNTERS = 160;

struct Counter {
  char name[48];
  uint64_t n;
};

enum Status { ST_NONE, ST_OK, ST_FAIL, ST_HANG, ST_STALL, ST_CRASH };

struct Shared {
  volatile int status;
  int isTrivial;
  char cls[96];
  char msg[2048];
  uint64_t hash, shape, simNs, steps;
  uint32_t len[NSTREAMS];
  uint32_t logLen;
  int nCounters;
  Counter counters[MAX_COUNTERS];
  uint64_t tape[NSTREAMS][TAPE_CAP];
  char log[LOG_CAP];
};

static Shared *S;
static bool g_active;
static bool g_replay;
static uint32_t g_pos[NSTREAMS];
static uint32_t g_rlen[NSTREAMS];
static uint64_t *g_rtape[NSTREAMS];
static uint64_t g_rng[NSTREAMS][4];
static Prop *g_props;
static const char *g_asanLog = nullptr;

Prop::Prop(const char *id_, void (*fn_)(), int batch_, void (*setup_)())
    : id(id_), fn(fn_), setup(setup_), batch(batch_), next(g_props) {
  g_props = this;
}

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) {
  return (x << k) | (x >> (64 - k));
}
static uint64_t xoshiro(uint64_t *s) {
  const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return r;
}
static void seed_all(uint64_t seed) {
  for (int s = 0; s < NSTREAMS; s++) {
    uint64_t x = seed * 3 + s + 1;
    for (int i = 0; i < 4; i++)
      g_rng[s][i] = splitmix(x);
  }
}

bool active() { return g_active; }

void raw_exit(int code) {
  __asm__ volatile("syscall" ::"a"(231), "D"((long)code) : "rcx", "r11", "memory");
  __builtin_unreachable();
}

uint64_t draw(Stream s, uint64_t n) {
  if (n <= 1)
    return 0;
  uint64_t v;
  uint32_t p = g_pos[s]++;
  if (g_replay) {
    v = p < g_rlen[s] ? g_rtape[s][p] : 0;
    if (v >= n)
      v %= n;
  } else {
    v = xoshiro(g_rng[s]) % n;
  }
  if (p < TAPE_CAP) {
    S->tape[s][p] = v;
    S->len[s] = p + 1;
  } else {
    fail("progress", "no progress: choice budget exhausted on stream %d", s);
  }
  return v;
}

uint64_t draw_u64(Stream s) {
  switch (draw(s, 5)) {
  case 0:
    return draw(s, 256);
  case 1: { // around a power of two
    uint64_t b = draw(s, 64);
    return (1ull << b) + draw(s, 3) - 1;
  }
  case 2:
    return ~((1ull << draw(s, 64)) + draw(s, 3) - 1);
  case 3: {
    uint64_t bits = draw(s, 64) + 1;
    uint64_t v = (draw(s, 1ull << 32) << 32) | draw(s, 1ull << 32);
    return bits == 64 ? v : v & ((1ull << bits) - 1);
  }
  default: {
    uint64_t bits = draw(s, 64) + 1;
    uint64_t v = (draw(s, 1ull << 32) << 32) | draw(s, 1ull << 32);
    return ~(bits == 64 ? v : v & ((1ull << bits) - 1));
  }
  }
}

void mix(uint64_t v) {
  S->hash = (S->hash ^ v) * 0x100000001b3ull;
  S->hash ^= S->hash >> 29;
}
void shape(uint64_t v) {
  S->shape = (S->shape ^ v) * 0x100000001b3ull;
  S->shape ^= S->shape >> 31;
}

static void log_raw(const char *b, int n) {
  if (n <= 0)
    return;
  if (S->logLen + n + 2 < LOG_CAP) {
    memcpy(S->log + S->logLen, b, n);
    S->logLen += n;
    S->log[S->logLen++] = '\n';
    S->log[S->logLen] = 0;
  }
}

void ev(const char *fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b)
    n = sizeof b - 1;
  for (int i = 0; i < n; i++)
    mix((unsigned char)b[i]);
  mix(0x10001);
  log_raw(b, n);
}

void count(const char *name, uint64_t n) {
  for (int i = 0; i < S->nCounters; i++)
    if (!strcmp(S->counters[i].name, name)) {
      S->counters[i].n += n;
      return;
    }
  if (S->nCounters < MAX_COUNTERS) {
    Counter &c = S->counters[S->nCounters++];
    strncpy(c.name, name, sizeof c.name - 1);
    c.name[sizeof c.name - 1] = 0;
    c.n = n;
  }
}

void trivial() { S->isTrivial = 1; }
void add_time_ns(uint64_t ns) { S->simNs += ns; }
void add_steps(uint64_t n) { S->steps += n; }

static void finish(Status st) {
  g_active = false;
  S->status = st;
  raw_exit(0);
}

void fail(const char *cls, const char *fmt, ...) {
  if (S->status == ST_NONE) {
    strncpy(S->cls, cls, sizeof S->cls - 1);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    char b[2300];
    int n = snprintf(b, sizeof b, "VIOLATION %s: %s", S->cls, S->msg);
    log_raw(b, n);
  }
  finish(ST_FAIL);
  __builtin_unreachable();
}

void end_ok() {
  finish(ST_OK);
  __builtin_unreachable();
}

static void on_sig(int sig) {
  if (sig == SIGPROF) {
    strcpy(S->cls, "hang");
    strcpy(S->msg, "no progress: the run consumed its whole CPU budget");
    finish(ST_HANG);
  }
  if (sig == SIGALRM) {
    strcpy(S->cls, "stall");
    strcpy(S->msg, "the run blocked in real time");
    finish(ST_STALL);
  }
  snprintf(S->cls, sizeof S->cls, "crash.sig%d", sig);
  snprintf(S->msg, sizeof S->msg, "the code under test died with signal %d%s",
           sig, sig == SIGABRT ? " (abort/terminate)" : "");
  finish(ST_CRASH);
}

static void (*g_resets[8])();
static int g_nResets;
void at_reset(void (*fn)()) { g_resets[g_nResets++] = fn; }

static unsigned char g_altstack[1 << 16];

// Called by sanitizer runtimes just before they die.
static void sanitizer_death(const char *report) {
  if (!S || S->status != ST_NONE)
    return;
  const char *k = report ? strstr(report, "AddressSanitizer: ") : nullptr;
  char kind[64] = "report";
  if (k) {
    k += strlen("AddressSanitizer: ");
    int i = 0;
    while (i < 60 && k[i] && k[i] != ' ' && k[i] != '\n') {
      kind[i] = k[i];
      i++;
    }
    kind[i] = 0;
  }
  snprintf(S->cls, sizeof S->cls, "memory.%s", kind);
  if (report) {
    strncpy(S->msg, report, sizeof S->msg - 1);
  }
  char b[2300];
  int n = snprintf(b, sizeof b, "VIOLATION %s: %.1800s", S->cls, S->msg);
  log_raw(b, n);
  finish(ST_CRASH);
}

extern "C" void __asan_set_error_report_callback(void (*)(const char *))
    __attribute__((weak));

static void child_prepare() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  stack_t ss{};
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_sig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM})
    sigaction(s, &sa, nullptr);
  if (__asan_set_error_report_callback)
    __asan_set_error_report_callback(sanitizer_death);
}

static void child_run(Prop *p) {
  itimerval tv{};
  tv.it_value.tv_sec = 3;
  setitimer(ITIMER_PROF, &tv, nullptr);
  tv.it_value.tv_sec = 60;
  setitimer(ITIMER_REAL, &tv, nullptr);
  for (int i = 0; i < g_nResets; i++)
    g_resets[i]();
  if (p->setup)
    p->setup();
  g_active = true;
  p->fn();
  g_active = false;
}

static void reset_shared() {
  S->status = ST_NONE;
  S->isTrivial = 0;
  S->cls[0] = S->msg[0] = 0;
  S->hash = 0xcbf29ce484222325ull;
  S->shape = 0x84222325cbf29ce4ull;
  S->simNs = S->steps = 0;
  for (auto &l : S->len)
    l = 0;
  S->logLen = 0;
  S->log[0] = 0;
  S->nCounters = 0;
}

static int g_stalls;

static void run_child(Prop *p, bool quiet) {
  for (int attempt = 0;; attempt++) {
    reset_shared();
    for (auto &q : g_pos)
      q = 0;
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      _exit(2);
    }
    if (!pid) {
      if (quiet) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
      }
      child_prepare();
      child_run(p);
      end_ok();
    }
    int wst = 0;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR)
      ;
    if (S->status == ST_STALL && attempt < 1) {
      g_stalls++;
      continue;
    }
    if (S->status == ST_NONE) {
      int sig = WIFSIGNALED(wst) ? WTERMSIG(wst) : 0;
      if (sig == SIGKILL && attempt < 2)
        continue; // killed from outside (memory guard): not a verdict
      S->status = ST_CRASH;
      if (sig)
        snprintf(S->cls, sizeof S->cls, "crash.sig%d", sig);
      else
        snprintf(S->cls, sizeof S->cls, "crash.exit");
      snprintf(S->msg, sizeof S->msg,
               "the code under test ended the process (status 0x%x)", wst);
    }
    return;
  }
}

static void run_seed(Prop *p, uint64_t seed, bool quiet = true) {
  g_replay = false;
  seed_all(seed);
  run_child(p, quiet);
}

struct Tapes {
  uint64_t *t[NSTREAMS];
  uint32_t n[NSTREAMS];
};
static Tapes tapes_new() {
  Tapes r;
  for (int s = 0; s < NSTREAMS; s++) {
    r.t[s] = (uint64_t *)malloc(sizeof(uint64_t) * TAPE_CAP);
    r.n[s] = 0;
  }
  return r;
}
static void tapes_copy(Tapes &d, const Tapes &s) {
  for (int i = 0; i < NSTREAMS; i++) {
    d.n[i] = s.n[i];
    memcpy(d.t[i], s.t[i], sizeof(uint64_t) * s.n[i]);
  }
}
static void tapes_from_shared(Tapes &d) {
  for (int i = 0; i < NSTREAMS; i++) {
    d.n[i] = S->len[i];
    memcpy(d.t[i], S->tape[i], sizeof(uint64_t) * S->len[i]);
  }
}

static void run_tapes(Prop *p, const Tapes &t, bool quiet = true) {
  g_replay = true;
  for (int s = 0; s < NSTREAMS; s++) {
    g_rtape[s] = t.t[s];
    g_rlen[s] = t.n[s];
  }
  run_child(p, quiet);
}

static double now_s() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static bool is_violation() {
  return S->status != ST_OK && S->status != ST_NONE;
}

// Greedy choice-tape minimisation with the violation class held constant.
static int minimise(Prop *p, Tapes &best, const char *cls, double budget) {
  const double t0 = now_s();
  int runs = 0;
  Tapes cand = tapes_new();
  auto left = [&] { return now_s() - t0 < budget && runs < 4000; };
  auto attempt = [&]() -> bool {
    runs++;
    run_tapes(p, cand);
    if (is_violation() && !strcmp(S->cls, cls)) {
      // keep what was consumed, when that is shorter
      for (int s = 0; s < NSTREAMS; s++)
        if (S->len[s] < cand.n[s])
          cand.n[s] = S->len[s];
      for (int s = 0; s < NSTREAMS; s++)
        while (cand.n[s] && !cand.t[s][cand.n[s] - 1])
          cand.n[s]--;
      tapes_copy(best, cand);
      return true;
    }
    return false;
  };
  tapes_copy(cand, best);
  attempt();
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (int s = NSTREAMS - 1; s >= 0 && left(); s--) {
      // drop everything / truncate
      for (uint32_t keep = 0; keep < best.n[s] && left();
           keep = keep ? keep * 2 : 1) {
        tapes_copy(cand, best);
        cand.n[s] = keep;
        if (attempt()) {
          progress = true;
          break;
        }
      }
      // delete chunks
      for (uint32_t c = best.n[s] / 2 ? best.n[s] / 2 : 1; c >= 1 && left();
           c /= 2) {
        uint32_t i = best.n[s];
        while (i > 0 && left()) {
          uint32_t b = i > c ? i - c : 0;
          if (b >= best.n[s]) {
            i = best.n[s];
            if (!i)
              break;
            continue;
          }
          tapes_copy(cand, best);
          uint32_t e = b + c > best.n[s] ? best.n[s] : b + c;
          memmove(cand.t[s] + b, cand.t[s] + e,
                  sizeof(uint64_t) * (best.n[s] - e));
          cand.n[s] -= e - b;
          if (attempt())
            progress = true;
          i = b;
        }
        if (c == 1)
          break;
      }
      // zero chunks
      for (uint32_t c = 16; c >= 1 && left(); c /= 2) {
        for (uint32_t i = 0; i < best.n[s] && left(); i += c) {
          bool any = false;
          tapes_copy(cand, best);
          for (uint32_t k = i; k < i + c && k < cand.n[s]; k++)
            if (cand.t[s][k]) {
              cand.t[s][k] = 0;
              any = true;
            }
          if (any && attempt())
            progress = true;
        }
      }
      // lower values
      for (uint32_t i = 0; i < best.n[s] && left(); i++) {
        if (!best.t[s][i])
          continue;
        uint64_t lo = 0, hi = best.t[s][i];
        while (lo + 1 < hi && left()) {
          uint64_t m = lo + (hi - lo) / 2;
          tapes_copy(cand, best);
          if (i >= cand.n[s])
            break;
          cand.t[s][i] = m;
          if (attempt()) {
            progress = true;
            if (i >= best.n[s])
              break;
            hi = best.t[s][i] < m ? best.t[s][i] : m;
          } else
            lo = m;
        }
      }
    }
  }
  return runs;
}

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c == '\n')
      fputs("\\n", f);
    else if (c < 0x20 || c >= 0x7f)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

static void write_result(FILE *f, const char *prop, uint64_t seed,
                         uint64_t index, const Tapes *t, int minRuns) {
  fprintf(f, "{\"property\":\"%s\",\"seed\":\"%016lx\",\"index\":%lu,", prop,
          seed, index);
  fprintf(f, "\"status\":%d,\"class\":", S->status);
  json_str(f, S->cls);
  fprintf(f, ",\"message\":");
  json_str(f, S->msg);
  fprintf(f, ",\"hash\":\"%016lx\",\"sim_ns\":%lu,\"minimiser_runs\":%d",
          S->hash, S->simNs, minRuns);
  if (t) {
    fprintf(f, ",\"tape\":[");
    for (int s = 0; s < NSTREAMS; s++) {
      fprintf(f, "%s[", s ? "," : "");
      for (uint32_t i = 0; i < t->n[s]; i++)
        fprintf(f, "%s%lu", i ? "," : "", t->t[s][i]);
      fprintf(f, "]");
    }
    fprintf(f, "]");
  }
  fprintf(f, ",\"trace\":");
  json_str(f, S->log);
  fprintf(f, "}\n");
}

static Prop *find(const char *id) {
  for (Prop *p = g_props; p; p = p->next)
    if (!strcmp(p->id, id))
      return p;
  fprintf(stderr, "unknown property %s\n", id);
  _exit(2);
}

static uint64_t run_seed_of(uint64_t base, const char *id, uint64_t index) {
  uint64_t x = base * 0x9E3779B97F4A7C15ull;
  for (const char *c = id; *c; c++)
    x = (x ^ (unsigned char)*c) * 0x100000001b3ull;
  x ^= index * 0xD1B54A32D192ED03ull;
  return splitmix(x);
}

struct AggC {
  char name[48];
  uint64_t n, runs;
};
static constexpr int MAX_BATCH = 64;
// What a worker's runs add up to; shared with the processes of its batches.
struct Agg {
  AggC c[MAX_COUNTERS];
  int nC;
  uint64_t runs, triv, simNs, steps;
  uint64_t shapes[MAX_BATCH + 1];
  int nShapes;
  char samples[3][1600];
  int nS;
  uint64_t hIdx[16], hHash[16];
  int nH;
  uint64_t cur; // run number the batch is at
  int done;
  uint64_t batchOnly;
};
static Agg *A;

static void aggregate() {
  A->runs++;
  A->simNs += S->simNs;
  A->steps += S->steps;
  for (int i = 0; i < S->nCounters; i++) {
    int k = 0;
    for (; k < A->nC; k++)
      if (!strcmp(A->c[k].name, S->counters[i].name))
        break;
    if (k == A->nC) {
      if (A->nC == MAX_COUNTERS)
        continue;
      strcpy(A->c[A->nC].name, S->counters[i].name);
      A->c[A->nC].n = A->c[A->nC].runs = 0;
      A->nC++;
    }
    A->c[k].n += S->counters[i].n;
    A->c[k].runs++;
  }
}
// a run without violation
static void record_ok(Prop *p, uint64_t idx, uint64_t seed) {
  aggregate();
  if (A->nH < 16) {
    A->hIdx[A->nH] = idx;
    A->hHash[A->nH++] = S->hash;
  }
  if (S->isTrivial) {
    A->triv++;
    return;
  }
  // single-threaded worlds: the history of operations and faults itself
  A->shapes[A->nShapes++] = p->batch > 1 ? S->hash : S->shape;
  if (A->nS < 3 && A->runs >= 3 && S->logLen > 40) {
    snprintf(A->samples[A->nS], sizeof A->samples[0], "seed %016lx: %.1500s",
             seed, S->log);
    A->nS++;
  }
}

// usage:
//  --worker PROP SEED FIRST STRIDE COUNT WALL_S HASHFILE [known-class...]
//  --hash PROP SEED FIRST STRIDE COUNT        one "index class hash" per line
//  --show PROP SEED INDEX                     trace of one run
//  --after PROP SEED INDEX...                 trace of the last run when the
//                                             others ran before in its process
//  --replay PROP TAPEFILE                     tapes as whitespace numbers
//  --minimise PROP SEED INDEX BUDGET
int sim_main(int argc, char **argv) {
  if (argc < 3)
    return 2;
  // Fixed addresses where the kernel allows it (belt and braces: nothing
  // logged or drawn depends on an address).
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) &&
        personality(per | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  setenv("TZ", "UTC0", 1);
  tzset();
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED)
    return 2;
  const char *mode = argv[1];
  Prop *p = find(argv[2]);
  if (!strcmp(mode, "--worker")) {
    uint64_t base = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10),
             stride = strtoull(argv[5], 0, 10),
             cnt = strtoull(argv[6], 0, 10);
    double wall = atof(argv[7]);
    FILE *hf = fopen(argv[8], "wb");
    double t0 = now_s();
    uint64_t known = 0, vIndex = 0, vSeed = 0;
    bool viol = false;
    A = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (A == MAP_FAILED)
      return 2;
    auto idx_of = [&](uint64_t k) { return first + k * stride; };
    auto seed_of = [&](uint64_t k) { return run_seed_of(base, p->id, idx_of(k)); };
    for (uint64_t k = 0; k < cnt && !viol;) {
      if (now_s() - t0 > wall)
        break;
      if (p->batch > 1) {
        uint64_t e = k + p->batch < cnt ? k + p->batch : cnt;
        A->done = 0;
        A->cur = k;
        S->status = ST_NONE;
        pid_t pid = fork();
        if (pid < 0) {
          perror("fork");
          return 2;
        }
        if (!pid) {
          int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 1);
          dup2(fd, 2);
          child_prepare();
          for (; A->cur < e; A->cur++) {
            uint64_t seed = seed_of(A->cur);
            reset_shared();
            for (auto &q : g_pos)
              q = 0;
            g_replay = false;
            seed_all(seed);
            child_run(p);
            record_ok(p, idx_of(A->cur), seed);
          }
          A->done = 1;
          raw_exit(0);
        }
        int wst = 0;
        while (waitpid(pid, &wst, 0) < 0 && errno == EINTR)
          ;
        k = A->cur;
        fwrite(A->shapes, 8, A->nShapes, hf);
        A->nShapes = 0;
        if (A->done)
          continue;
        // run k ended its process: judge it alone
      }
      run_seed(p, seed_of(k));
      if (is_violation()) {
        aggregate();
        bool isKnown = false;
        for (int a = 9; a < argc; a++)
          if (!strcmp(argv[a], S->cls))
            isKnown = true;
        if (isKnown) {
          known++;
        } else {
          viol = true;
          vIndex = idx_of(k);
          vSeed = seed_of(k);
        }
      } else {
        if (p->batch > 1)
          A->batchOnly++;
        record_ok(p, idx_of(k), seed_of(k));
        fwrite(A->shapes, 8, A->nShapes, hf);
        A->nShapes = 0;
      }
      k++;
    }
    fclose(hf);
    double wallUsed = now_s() - t0;
    printf("{\"runs\":%lu,\"trivial\":%lu,\"sim_ns\":%lu,\"steps\":%lu,"
           "\"wall\":%.3f,\"stalls\":%d,\"known\":%lu,\"batch_only\":%lu,"
           "\"violation\":%s,\"v_index\":%lu,\"v_seed\":\"%016lx\",\"v_class\":",
           A->runs, A->triv, A->simNs, A->steps, wallUsed, g_stalls, known,
           A->batchOnly, viol ? "true" : "false", vIndex, vSeed);
    json_str(stdout, viol ? S->cls : "");
    printf(",\"v_hash\":\"%016lx\",\"counters\":{", viol ? S->hash : 0);
    for (int i = 0; i < A->nC; i++)
      printf("%s\"%s\":[%lu,%lu]", i ? "," : "", A->c[i].name, A->c[i].n,
             A->c[i].runs);
    printf("},\"hashes\":{");
    for (int i = 0; i < A->nH; i++)
      printf("%s\"%lu\":\"%016lx\"", i ? "," : "", A->hIdx[i], A->hHash[i]);
    printf("},\"samples\":[");
    for (int i = 0; i < A->nS; i++) {
      if (i)
        putchar(',');
      json_str(stdout, A->samples[i]);
    }
    printf("]}\n");
    return 0;
  }
  if (!strcmp(mode, "--hash")) {
    uint64_t base = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10),
             stride = strtoull(argv[5], 0, 10), cnt = strtoull(argv[6], 0, 10);
    for (uint64_t k = 0; k < cnt; k++) {
      uint64_t idx = first + k * stride;
      run_seed(p, run_seed_of(base, p->id, idx));
      printf("%lu %d %s %016lx %016lx\n", idx, S->status,
             S->cls[0] ? S->cls : "-", S->hash, S->shape);
    }
    return 0;
  }
  if (!strcmp(mode, "--show")) {
    uint64_t seed =
        run_seed_of(strtoull(argv[3], 0, 10), p->id, strtoull(argv[4], 0, 10));
    run_seed(p, seed, !getenv("SIM_LOUD"));
    printf("%s\nstatus=%d class=%s hash=%016lx\n%s\n", S->log, S->status,
           S->cls, S->hash, S->msg);
    for (int i = 0; i < S->nCounters; i++)
      printf("  %s = %lu\n", S->counters[i].name, S->counters[i].n);
    return 0;
  }
  if (!strcmp(mode, "--after")) { // the last of several runs in one process
    pid_t pid = fork();
    if (!pid) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
      child_prepare();
      for (int a = 4; a < argc; a++) {
        reset_shared();
        for (auto &q : g_pos)
          q = 0;
        g_replay = false;
        seed_all(run_seed_of(strtoull(argv[3], 0, 10), p->id,
                             strtoull(argv[a], 0, 10)));
        child_run(p);
      }
      raw_exit(0);
    }
    waitpid(pid, nullptr, 0);
    printf("%s\nstatus=%d class=%s hash=%016lx\n%s\n", S->log, S->status,
           S->cls, S->hash, S->msg);
    return 0;
  }
  if (!strcmp(mode, "--minimise")) {
    uint64_t idx = strtoull(argv[4], 0, 10);
    uint64_t seed = run_seed_of(strtoull(argv[3], 0, 10), p->id, idx);
    double budget = atof(argv[5]);
    run_seed(p, seed);
    if (!is_violation()) {
      fprintf(stderr, "seed does not fail\n");
      return 3;
    }
    char cls[96];
    strcpy(cls, S->cls);
    Tapes best = tapes_new();
    tapes_from_shared(best);
    int runs = minimise(p, best, cls, budget);
    run_tapes(p, best);
    write_result(stdout, p->id, seed, idx, &best, runs);
    return 0;
  }
  if (!strcmp(mode, "--replay")) {
    Tapes t = tapes_new();
    FILE *f = fopen(argv[3], "r");
    if (!f)
      return 2;
    for (int s = 0; s < NSTREAMS; s++) {
      unsigned n;
      if (fscanf(f, "%u", &n) != 1 || n > TAPE_CAP)
        return 2;
      t.n[s] = n;
      for (unsigned i = 0; i < n; i++)
        if (fscanf(f, "%lu", &t.t[s][i]) != 1)
          return 2;
    }
    fclose(f);
    run_tapes(p, t, !getenv("SIM_LOUD"));
    write_result(stdout, p->id, 0, 0, nullptr, 0);
    return 0;
  }
  return 2;
}

} // namespace sim

int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
