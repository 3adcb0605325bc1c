// Deterministic simulation core: choice tape, event log, violations,
// counters, fork-per-run isolation, replay and minimisation.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace sim {

// One run is a pure function of three choice streams.
enum Stream { WORK = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };

// Draws a value in [0, n). 0 is always the simplest choice: the minimiser
// moves every choice towards 0.
uint64_t draw(Stream s, uint64_t n);
inline uint64_t work(uint64_t n) { return draw(WORK, n); }
inline uint64_t work(uint64_t lo, uint64_t hi) {
  return lo + draw(WORK, hi - lo + 1);
}
// true with probability num/den; "false" is the simple choice.
inline bool chance(Stream s, uint64_t num, uint64_t den) {
  return draw(s, den) >= den - num;
}
// full 64 bit value with many small / boundary values
uint64_t draw_u64(Stream s);

// Event log: hashed always, kept as text for the replay trace.
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Cheap hash-only event (scheduler decisions and the like).
void mix(uint64_t v);
// Hash of the interleaving/fault shape, counted as "distinct states".
void shape(uint64_t v);

// Counters shown in the evidence ("fault.x", "probe.y").
void count(const char *name, uint64_t n = 1);

// Reports a violation of the property under test and ends the run.
// `cls` is the violation class: minimisation keeps it constant.
[[noreturn]] void fail(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...)                                              \
  do {                                                                         \
    if (!(cond))                                                               \
      ::sim::fail(cls, __VA_ARGS__);                                           \
  } while (0)

[[noreturn]] void end_ok();
// The run turned out to be trivial (counted apart from the non-trivial ones).
void trivial();
// Class given to crashes (signals, sanitizer reports) and hangs in this run.
void add_time_ns(uint64_t ns); // simulated time covered
void add_steps(uint64_t n);

bool active(); // inside a run

// Property registry.
struct Prop {
  const char *id;
  void (*fn)();
  // called in the child before fn, outside of the simulated world
  void (*setup)();
  int batch; // runs per process in a search (1: a fresh process for each)
  Prop *next;
  Prop(const char *id_, void (*fn_)(), int batch_ = 1,
       void (*setup_)() = nullptr);
};
#define SIM_PROP(id, fn) static ::sim::Prop _prop_##fn(id, fn)
// For single-threaded worlds that leave no state behind: many runs share a
// process; a violation only counts when a fresh process repeats it.
#define SIM_PROP_BATCH(id, fn) static ::sim::Prop _prop_##fn(id, fn, 64)
// Called before each run: puts the simulated world back to its start.
void at_reset(void (*fn)());

int sim_main(int argc, char **argv);

// raw helpers that never go through interposed functions
[[noreturn]] void raw_exit(int code);

} // namespace sim
