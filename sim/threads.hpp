// Simulated threads: real pthreads handed off one at a time at every memory
// access, synchronisation call, clock read and sleep of the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

struct ThreadCfg {
  unsigned hwThreads = 4;      // what the "machine" reports
  int policy = 1;              // 0 sync-only, 1 fine random, 2 priorities
  uint32_t meanInterval = 60;  // accesses between preemptions (policy 1)
  uint32_t createFailNum = 0;  // of 64: pthread_create fails with EAGAIN
  uint32_t createFailAt = 0;   // 1-based: exactly that creation fails
  uint32_t createLimit = 0;    // max threads alive at once (0: unlimited)
  uint32_t spuriousNum = 0;    // of 64: a futex/cond wait wakes spuriously
  uint32_t clockJumpNum = 0;   // of 64 per read: wall clock jumps
  uint32_t starveThread = 0;   // thread id that runs only when alone (0: none)
  uint32_t allocFailNum = 0;   // of 1024: operator new/malloc fails
  bool races = true;          // report accesses no synchronisation orders
  uint64_t maxSteps = 160000; // scheduler steps before "no progress"
  uint64_t epochSec = 1700000000;
  uint64_t maxSimSec = 100000; // simulated seconds before "no progress"
};

// Enters/leaves the simulated world on the calling (main) thread.
void threads_begin(const ThreadCfg &cfg);
void threads_end();

uint64_t now_ns();          // simulated monotonic time
void sleep_ns(uint64_t ns); // simulated sleep of the calling thread
void yield_point();         // explicit scheduling point
int self_id();              // logical thread id (main is 0)
int live_threads();         // created and not finished, main excluded
uint64_t threads_created();
// Low 32 bits of the pthread id of logical thread `id`
uint32_t thread_handle_low(int id);
void set_alloc_fail(uint32_t num1024); // live change of allocation failure
void alloc_fail_at(uint64_t k); // the calling thread's k-th allocation fails
bool alloc_fail_fired();        // since alloc_fail_at
uint64_t allocs_done();
struct NoPreempt { // bookkeeping of the harness runs atomically
  NoPreempt();
  ~NoPreempt();
};
// Bumped at each scheduling decision: a total order over the history
uint64_t seq();

} // namespace sim
