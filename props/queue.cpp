// C01, C02, C03: the threaded queue.
#include "../sim/core.hpp"
#include "../sim/threads.hpp"
#include "datas/multi_thread.hpp"
#include <stdexcept>
#include <system_error>

using namespace sim;

namespace {

ThreadCfg draw_cfg() {
  ThreadCfg c;
  c.policy = work(3);
  static const uint32_t iv[] = {200, 60, 20, 6, 600};
  c.meanInterval = iv[work(5)];
  c.hwThreads = 1 + work(8);
  if (chance(WORK, 1, 24))
    c.hwThreads = 12 + work(20); // more slots than tasks
  if (chance(WORK, 1, 24))
    c.hwThreads = 0; // "not computable or not well defined"
  if (chance(WORK, 1, 96)) {
    c.hwThreads = 33 + work(100); // a big machine
    c.maxSteps *= 8;
    c.meanInterval = 600;
  }
  if (chance(WORK, 1, 4))
    c.spuriousNum = 1 + work(12);
  if (chance(WORK, 1, 4))
    c.clockJumpNum = 1 + work(8);
  if (chance(WORK, 1, 6))
    c.starveThread = 1 + work(6);
  return c;
}

struct Hist {
  struct Task {
    int starts = 0, ends = 0;
    uint64_t startT = 0, endT = 0;
    uint64_t sleepNs = 0;
    int spins = 0;
    bool throws = false;
    int sideEffect = 0;
  };
  std::vector<Task> t;
  int running = 0, maxRunning = 0;
  int limit = 0;
  bool checkLimit = true;
  explicit Hist(size_t n) : t(n) {}

  void start(size_t i) {
    NoPreempt np;
    SIM_CHECK(i < t.size(), "queue.bad_index",
              "body called with index %zu of %zu tasks", i, t.size());
    ev("t%d task %zu starts", self_id(), i);
    t[i].starts++;
    t[i].startT = now_ns();
    SIM_CHECK(t[i].starts == 1, "queue.task_repeated",
              "task %zu was started %d times", i, t[i].starts);
    running++;
    if (running > maxRunning)
      maxRunning = running;
    if (checkLimit)
      SIM_CHECK(running <= limit, "queue.too_many_running",
                "%d bodies in progress, at most %d allowed", running, limit);
  }
  void end(size_t i) {
    NoPreempt np;
    ev("t%d task %zu ends", self_id(), i);
    t[i].ends++;
    t[i].endT = now_ns();
    running--;
  }
  void check_done(const char *when) {
    NoPreempt np;
    for (size_t i = 0; i < t.size(); i++) {
      SIM_CHECK(t[i].starts >= 1, "queue.task_lost", "task %zu never ran (%s)",
                i, when);
      SIM_CHECK(t[i].ends == t[i].starts, "queue.returned_early",
                "task %zu is still in progress %s", i, when);
    }
    SIM_CHECK(running == 0, "queue.returned_early",
              "%d bodies still in progress %s", running, when);
  }
};

void spin(int n) {
  for (int k = 0; k < n; k++)
    yield_point();
}

void draw_tasks(Hist &h, uint64_t maxSleepUs) {
  for (auto &t : h.t) {
    switch (work(4)) {
    case 1:
      t.spins = work(20);
      break;
    case 2:
      t.sleepNs = (1 + work(maxSleepUs)) * 1000;
      break;
    case 3:
      t.sleepNs = (1 + work(3)) * 2000000 - 1000 + work(2000); // near polls
      break;
    }
  }
}

// A callable that owns memory: every copy must stay alive and intact while
// its body runs.
struct Callable {
  Hist *h;
  std::vector<int> payload;
  size_t size;
  Callable(Hist *h_, int n) : h(h_), payload(n), size(n) {
    for (int i = 0; i < n; i++)
      payload[i] = i * 7 + 3;
  }
  void verify() const {
    if (payload.size() != size)
      fail("queue.callable_broken", "a task runs with a callable that was moved from");
    for (size_t i = 0; i < payload.size(); i++)
      if (payload[i] != (int)i * 7 + 3)
        fail("queue.callable_broken",
             "the callable's own data changed under a running task");
  }
};
struct CallVoid : Callable {
  using Callable::Callable;
  void operator()(size_t i) const {
    h->start(i);
    verify();
    spin(h->t[i].spins);
    sleep_ns(h->t[i].sleepNs);
    verify();
    h->t[i].sideEffect = (int)i + 1;
    h->end(i);
  }
};
struct CallInt : Callable {
  using Callable::Callable;
  int operator()(size_t i) {
    h->start(i);
    verify();
    sleep_ns(h->t[i].sleepNs);
    spin(h->t[i].spins);
    verify();
    h->t[i].sideEffect = (int)i + 1;
    h->end(i);
    return (int)i;
  }
};
struct CallStr : Callable {
  using Callable::Callable;
  std::string operator()(size_t i) const {
    h->start(i);
    spin(h->t[i].spins);
    sleep_ns(h->t[i].sleepNs);
    verify();
    h->t[i].sideEffect = (int)i + 1;
    h->end(i);
    return std::string(40, 'x');
  }
};

void run_queue(Hist &h, int kind, int payload) {
  switch (kind) {
  case 0:
    RunThreadedQueue(h.t.size(), [&h](size_t i) {
      h.start(i);
      spin(h.t[i].spins);
      sleep_ns(h.t[i].sleepNs);
      h.t[i].sideEffect = (int)i + 1;
      h.end(i);
    });
    break;
  case 1:
    RunThreadedQueue(h.t.size(), CallVoid(&h, payload));
    break;
  case 2: {
    CallInt c(&h, payload);
    RunThreadedQueue(h.t.size(), c);
    break;
  }
  default:
    RunThreadedQueue(h.t.size(), CallStr(&h, payload));
    break;
  }
}

size_t draw_n(const ThreadCfg &c) {
  if (c.hwThreads > 32)
    return c.hwThreads - 1 + work(12);
  switch (work(4)) {
  case 0:
    return work(6);
  case 1:
    return c.hwThreads + work(3) - (c.hwThreads ? 1 : 0);
  case 2:
    return work(14);
  default:
    return work(33);
  }
}

// C01 exactly once, everything done on return
void c01() {
  ThreadCfg c = draw_cfg();
  int callers = chance(WORK, 1, 5) ? 2 + work(2) : 1;
  bool nested = callers == 1 && chance(WORK, 1, 8);
  std::vector<Hist> hs;
  std::vector<int> kinds, pay;
  for (int k = 0; k < callers; k++) {
    hs.emplace_back(callers > 1 || nested ? work(7) : draw_n(c));
    hs.back().checkLimit = false;
    draw_tasks(hs.back(), 5000);
    kinds.push_back(work(4));
    pay.push_back(1 + work(20));
  }
  ev("hw=%u policy=%d callers=%d n0=%zu nested=%d kind=%d", c.hwThreads,
     c.policy, callers, hs[0].t.size(), nested, kinds[0]);
  std::vector<Hist> inner;
  if (nested)
    for (size_t i = 0; i < hs[0].t.size(); i++) {
      inner.emplace_back(work(4));
      inner.back().checkLimit = false;
      draw_tasks(inner.back(), 2000);
    }
  size_t total = 0;
  for (auto &h : hs)
    total += h.t.size();
  if (total < 2)
    trivial();
  threads_begin(c);
  if (nested) {
    RunThreadedQueue(hs[0].t.size(), [&](size_t i) {
      hs[0].start(i);
      run_queue(inner[i], 1, 3);
      inner[i].check_done("when the inner queue returned");
      hs[0].t[i].sideEffect = (int)i + 1;
      hs[0].end(i);
    });
    hs[0].check_done("when the queue returned");
    count("probe.nested_queue");
  } else if (callers > 1) {
    std::vector<std::thread> th;
    for (int k = 0; k < callers; k++)
      th.emplace_back([&, k] {
        run_queue(hs[k], kinds[k], pay[k]);
        hs[k].check_done("when the queue returned");
      });
    for (auto &t : th)
      t.join();
    count("probe.concurrent_callers");
  } else {
    run_queue(hs[0], kinds[0], pay[0]);
    hs[0].check_done("when the queue returned");
  }
  threads_end();
  for (auto &h : hs)
    for (size_t i = 0; i < h.t.size(); i++)
      SIM_CHECK(h.t[i].sideEffect == (int)i + 1, "queue.effect_lost",
                "the effect of task %zu is not visible after return", i);
  if (!c.hwThreads)
    count("probe.hw_concurrency_zero");
  if (hs[0].t.size() > c.hwThreads)
    count("probe.slot_reuse");
  if (hs[0].t.empty())
    count("probe.no_tasks");
}

// C02 bounded parallelism, progress past slow tasks, real parallelism
void c02() {
  ThreadCfg c = draw_cfg();
  int slots = c.hwThreads ? (int)c.hwThreads : 1;
  int mode = work(3);
  if (mode == 1 && slots < 2)
    mode = 0;
  size_t n = draw_n(c);
  Hist h(n);
  draw_tasks(h, 4000);
  int lim = slots < (int)n ? slots : (int)n;
  h.limit = lim;
  ev("hw=%u policy=%d n=%zu mode=%d", c.hwThreads, c.policy, n, mode);
  if (n < 2)
    trivial();
  if (mode == 0) {
    threads_begin(c);
    run_queue(h, work(4), 1 + work(8));
    threads_end();
    h.check_done("when the queue returned");
    if (h.maxRunning == lim && lim > 1)
      count("probe.limit_reached");
    return;
  }
  if (mode == 1) {
    // some tasks stall for very long; one slot always stays usable, so that
    // all others must get done long before the stalled ones
    int stalls = n ? 1 + work(slots - 1) : 0;
    if (stalls >= lim)
      stalls = lim - 1;
    std::vector<bool> st(n);
    for (int k = 0; k < stalls; k++)
      st[work(n)] = true;
    const uint64_t STALL = 8000000000ull, BOUND = 4000000000ull;
    for (size_t i = 0; i < n; i++) {
      if (st[i]) {
        h.t[i].sleepNs = STALL + work(1000) * 1000000;
        ev("task %zu stalls", i);
        count("fault.stalled_task");
      }
    }
    c.starveThread = 0;
    c.meanInterval = 600;
    threads_begin(c);
    uint64_t t0 = now_ns();
    run_queue(h, work(4), 1 + work(8));
    threads_end();
    h.check_done("when the queue returned");
    for (size_t i = 0; i < n; i++)
      if (!st[i])
        SIM_CHECK(h.t[i].endT - t0 < BOUND, "queue.slot_idle",
                  "task %zu waited for a stalled task although a slot was free "
                  "(done after %.3f simulated s)",
                  i, (h.t[i].endT - t0) * 1e-9);
    return;
  }
  // rendezvous: `lim` tasks, the first ones or any, wait for each other; they
  // can only finish when they are really in progress together
  int arrived = 0;
  std::vector<bool> meets(n);
  bool any = lim && (int)n > lim && work(2);
  for (int k = 0; k < lim; k++) {
    size_t i = any ? work(n) : k;
    while (meets[i])
      i = (i + 1) % n;
    meets[i] = true;
  }
  threads_begin(c);
  RunThreadedQueue(n, [&](size_t i) {
    h.start(i);
    if (meets[i]) {
      {
        NoPreempt np;
        arrived++;
      }
      const uint64_t t0 = now_ns();
      for (uint64_t nap = 1000000;; nap += nap / 4) {
        {
          NoPreempt np;
          if (arrived >= lim)
            break;
        }
        sleep_ns(nap < 50000000 ? nap : 50000000);
        SIM_CHECK(now_ns() - t0 < 200000000000ull, "queue.not_parallel",
                  "only %d of the %d tasks that fit are in progress together",
                  arrived, lim);
      }
    } else {
      sleep_ns(h.t[i].sleepNs);
    }
    h.end(i);
  });
  threads_end();
  h.check_done("when the queue returned");
  if (lim > 1)
    count("probe.rendezvous");
}

struct BodyError : std::runtime_error {
  using runtime_error::runtime_error;
};

// C03 failures stay contained
void c03() {
  ThreadCfg c = draw_cfg();
  size_t n = 1 + draw_n(c);
  Hist h(n);
  h.checkLimit = false;
  draw_tasks(h, 4000);
  int kind = work(5); // 0 throw, 1 nth creation fails, 2 random, 3 limit+throw,
                      // 4 memory runs out for the caller
  int throwers = 0;
  if (kind == 0 || kind == 3 || (kind == 4 && work(2)))
    for (size_t i = 0; i < n; i++)
      if (chance(WORK, 1, 4)) {
        h.t[i].throws = true;
        throwers++;
      }
  if (kind == 1)
    c.createFailAt = 1 + work(n);
  if (kind == 2)
    c.createFailNum = 1 + work(12);
  if (kind == 3)
    c.createLimit = 1 + work(c.hwThreads ? c.hwThreads : 1);
  ev("hw=%u n=%zu kind=%d throwers=%d failAt=%u limit=%u", c.hwThreads, n, kind,
     throwers, c.createFailAt, c.createLimit);
  const uint64_t failAlloc = kind == 4 ? 1 + draw(FAULT, 4 * n + 4) : 0;
  bool threw = false, sysErr = false, bodyErr = false, memErr = false;
  if (n < 2)
    trivial();
  threads_begin(c);
  if (failAlloc)
    alloc_fail_at(failAlloc);
  try {
    RunThreadedQueue(n, [&](size_t i) {
      h.start(i);
      spin(h.t[i].spins);
      sleep_ns(h.t[i].sleepNs);
      if (h.t[i].throws) {
        count("fault.body_throws");
        h.end(i);
        throw BodyError("task failed");
      }
      h.end(i);
    });
  } catch (const std::system_error &e) {
    threw = sysErr = true;
  } catch (const BodyError &) {
    threw = bodyErr = true;
  } catch (const std::bad_alloc &) {
    threw = memErr = true;
  }
  const bool outOfMemory = failAlloc && alloc_fail_fired();
  alloc_fail_at(0);
  {
    NoPreempt np;
    ev("call left: %s", sysErr    ? "system_error"
                       : bodyErr ? "body error"
                       : memErr  ? "out of memory"
                                 : "returned");
    SIM_CHECK(h.running == 0, "queue.returned_early",
              "%d bodies still in progress when the call was left", h.running);
    for (size_t i = 0; i < n; i++)
      SIM_CHECK(h.t[i].starts == h.t[i].ends, "queue.returned_early",
                "task %zu is still in progress when the call was left", i);
  }
  // give stragglers a chance to show up
  sleep_ns(50000000);
  threads_end();
  for (size_t i = 0; i < n; i++)
    SIM_CHECK(h.t[i].starts <= 1 && h.t[i].starts == h.t[i].ends &&
                  (!threw || h.t[i].endT <= now_ns()),
              "queue.straggler", "task %zu ran after the call was left", i);
  const bool creationCanFail =
      c.createFailAt || c.createFailNum || c.createLimit;
  SIM_CHECK(!sysErr || creationCanFail || outOfMemory, "queue.spurious_error",
            "the call reports a thread failure that did not happen");
  SIM_CHECK(!memErr || outOfMemory, "queue.spurious_error",
            "the call reports lack of memory that did not happen");
  SIM_CHECK(!bodyErr || throwers, "queue.spurious_error",
            "the call reports a body error that did not happen");
  if (!sysErr && !memErr && !(bodyErr && outOfMemory))
    h.check_done("after the call (a failing task must not lose others)");
  if (sysErr)
    count("probe.call_reports_thread_failure");
  if (memErr)
    count("probe.call_reports_no_memory");
}

} // namespace

SIM_PROP("C01", c01);
SIM_PROP("C02", c02);
SIM_PROP("C03", c03);
