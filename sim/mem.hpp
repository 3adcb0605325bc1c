// Allocation seam of the single-threaded harness: every operator new and
// pugixml allocation goes through here and can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
namespace mem {
void fail_at(uint64_t k, size_t min = 0); // the k-th allocation (of at least
                               // min bytes) from now fails (0: off)
void fail_from(uint64_t k);    // that one and all later ones fail
void off();                    // no more injected failures
bool fired();                  // an injected failure happened since arming
void cap(size_t bytes);        // larger requests are refused (default 64 MiB)
bool refused();                // some request was over the cap
size_t live_blocks();          // blocks allocated during the run, not freed
void track(bool on);
void *xml_alloc(size_t n);     // for pugi::set_memory_management_functions
void xml_free(void *p);
struct NoFail {                // harness bookkeeping: never fails, untracked
  NoFail();
  ~NoFail();
};
} // namespace mem
} // namespace sim
