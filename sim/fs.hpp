// Simulated machine for the single-threaded harness: an in-memory file
// system behind the libc calls (fopen, open, read, write, lseek, stat, mkdir,
// opendir, readdir, ...), a simulated clock and processor count. While it is
// up no call reaches the real file system.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
namespace fs {

enum Type { NONE, FILE_, DIR_, LINK_, FIFO_, SOCK_, CHR_, BLK_ };

struct Cfg {
  // of 1024 per call: the call fails with an error that fits it
  uint32_t openErr = 0, readErr = 0, writeErr = 0, seekErr = 0, closeErr = 0;
  uint32_t statErr = 0, mkdirErr = 0, dirErr = 0;
  uint32_t eintr = 0;     // read/write interrupted before transferring
  uint32_t shortIo = 0;   // read/write transfers only a part
  bool dtUnknown = false; // readdir does not tell types
  bool shuffle = false;   // directory order is arbitrary
  uint64_t diskLimit = ~0ull; // bytes that fit on the medium
  uint64_t crashAt = 0;   // the process dies at this call (1-based)
  uint64_t opLimit = 200000;
  uint64_t latencyNs = 20000;
  uint64_t epochSec = 1700000000;
  unsigned hwThreads = 4;
};

void begin(const Cfg &c);
void end();
void restart();           // after a crash: descriptors gone, files stay
bool crashed();
Cfg &cfg();               // may be changed while running

// Direct access for the harness (absolute paths, parents must exist)
int put(const std::string &path, const std::string &data);
int make_dir(const std::string &path);
int make_link(const std::string &path, const std::string &target);
int make_special(const std::string &path, Type t);
bool remove_(const std::string &path); // recursive
Type type(const std::string &path);    // does not follow a final link
Type type_follow(const std::string &path);
std::string get(const std::string &path);
void deny(const std::string &path, bool on); // EACCES on use
std::vector<std::string> list();       // all paths, links not followed
void set_cwd(const std::string &path);

// called before every simulated call (adversary)
extern std::function<void(const char *op, const std::string &path)> on_op;

uint64_t ops();            // calls so far
uint64_t mutations();      // calls that changed the file system
int open_handles();        // descriptors and directory streams still open
// faults that fired since begin, by kind
struct Fired {
  uint64_t open = 0, read = 0, write = 0, seek = 0, close = 0, stat = 0,
           mkdir = 0, dir = 0, full = 0, eintr = 0, shortIo = 0;
  uint64_t hard() const { return open + read + write + seek + close + stat + mkdir + dir + full; }
};
const Fired &fired();
// paths given to the opendir/stat/mkdir calls that were made to fail (readdir:
// of the directory)
const std::vector<std::string> &failed_paths();
uint64_t now_ns();
uint64_t wall_ns(); // what the system clock shows
void advance_ns(uint64_t ns);
void jump_clock(int64_t sec);

} // namespace fs
} // namespace sim
