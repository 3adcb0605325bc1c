#include "fs.hpp"
#include "core.hpp"
#include "mem.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ctime>
#include <unistd.h>

#define INTERPOSE extern "C" __attribute__((visibility("default"), used))

namespace sim {
namespace fs {

struct Node;
typedef std::shared_ptr<Node> Ptr;
struct Node {
  Type type;
  uint64_t ino;
  std::string data; // file contents or link target
  std::map<std::string, Ptr> kids;
  std::vector<std::string> order; // creation order of the kids
  std::weak_ptr<Node> up;
  bool denied = false;
};

struct Fd {
  Ptr node;
  uint64_t pos = 0;
  int flags = 0;
  bool open = false;
};
struct Dir {
  std::string path;
  Ptr node;
  std::vector<std::pair<std::string, Ptr>> ents;
  size_t at = 0;
  int fd = -1;
  union {
    dirent d;
    dirent64 d64;
  };
};

struct World {
  Cfg cfg;
  Ptr root, cwd;
  uint64_t nextIno = 2, nOps = 0, nMut = 0, used = 0;
  bool dead = false, diedHere = false;
  std::vector<Fd> fds;
  std::map<FILE *, int> files;
  std::set<Dir *> dirs;
  Fired fired;
  std::vector<std::string> failedPaths;
  uint64_t now = 0;
  int64_t skew = 0;
};
static World *W;
static const int FD0 = 1 << 20;
static int g_depth; // inside the simulator (or the adversary)
std::function<void(const char *, const std::string &)> on_op;

struct In { // simulator code: no faults, no tracking
  mem::NoFail nf;
  In() { g_depth++; }
  ~In() { g_depth--; }
};
static inline bool on() { return W && !g_depth && active(); }

static Ptr mk(Type t, const Ptr &up) {
  Ptr n = std::make_shared<Node>();
  n->type = t;
  n->ino = W->nextIno++;
  n->up = up;
  return n;
}

// ------------------------------------------------------------- resolution
struct Res {
  int err = 0;
  Ptr dir, node; // node null: last component does not exist
  std::string last;
  bool slash = false;
};

static Res walk(Ptr at, const std::string &path, bool follow, int &links) {
  Res r;
  if (path.empty()) {
    r.err = ENOENT;
    return r;
  }
  if (path.size() >= PATH_MAX) {
    r.err = ENAMETOOLONG;
    return r;
  }
  size_t i = 0;
  if (path[0] == '/')
    at = W->root;
  r.dir = at;
  r.node = at;
  r.last = ".";
  while (true) {
    while (i < path.size() && path[i] == '/')
      i++;
    if (i >= path.size())
      break;
    size_t j = path.find('/', i);
    if (j == std::string::npos)
      j = path.size();
    std::string c = path.substr(i, j - i);
    size_t k = j;
    while (k < path.size() && path[k] == '/')
      k++;
    bool final_ = k >= path.size();
    bool slash = j < path.size();
    i = k;
    if (c.size() > NAME_MAX) {
      r.err = ENAMETOOLONG;
      return r;
    }
    if (!r.node) {
      r.err = ENOENT;
      return r;
    }
    if (r.node->type != DIR_) {
      r.err = ENOTDIR;
      return r;
    }
    if (r.node->denied) {
      r.err = EACCES;
      return r;
    }
    Ptr cur = r.node;
    r.dir = cur;
    r.last = c;
    r.slash = slash;
    if (c == ".") {
      r.node = cur;
    } else if (c == "..") {
      Ptr u = cur->up.lock();
      r.node = u ? u : cur;
    } else {
      auto it = cur->kids.find(c);
      r.node = it == cur->kids.end() ? nullptr : it->second;
    }
    if (r.node && r.node->type == LINK_ && (!final_ || follow || slash)) {
      if (++links > 40) {
        r.err = ELOOP;
        return r;
      }
      Res t = walk(cur, r.node->data, true, links);
      if (t.err)
        return t;
      if (final_) {
        t.slash |= slash;
        r = t;
      } else {
        r.node = t.node;
      }
      if (!r.node && !final_) {
        r.err = ENOENT;
        return r;
      }
    }
  }
  if (r.node && r.slash && r.node->type != DIR_)
    r.err = ENOTDIR;
  return r;
}
static Res resolve(const std::string &path, bool follow) {
  int l = 0;
  return walk(W->cwd, path, follow, l);
}

// ----------------------------------------------------------------- faults
static int ret_err(int e) {
  errno = e;
  return -1;
}
// false: the process is dead, nothing happens any more
static bool step(const char *op, const std::string &path) {
  W->diedHere = false;
  if (W->dead)
    return false;
  W->nOps++;
  W->now += W->cfg.latencyNs;
  add_time_ns(W->cfg.latencyNs);
  add_steps(1);
  if (W->nOps > W->cfg.opLimit)
    fail("progress", "no progress: more than %llu file system calls",
         (unsigned long long)W->cfg.opLimit);
  if (on_op) {
    on_op(op, path);
  }
  if (W->cfg.crashAt && W->nOps == W->cfg.crashAt) {
    ev("process dies in call %llu: %s %s", (unsigned long long)W->nOps, op,
       path.c_str());
    count("fault.process_crash");
    shape(0xdead ^ W->nOps);
    W->dead = W->diedHere = true;
    return false;
  }
  return true;
}
static bool roll(uint32_t num) { return num && chance(FAULT, num, 1024); }
static int pick(std::initializer_list<int> l) {
  return l.begin()[draw(FAULT, l.size())];
}
static int inject(const char *op, const std::string &what, int e,
                  uint64_t &cnt, const char *counter) {
  cnt++;
  W->failedPaths.push_back(what);
  ev("FAULT %s %s: %s", op, what.c_str(), strerrorname_np(e));
  count(counter);
  shape(e * 131 + W->nOps);
  return ret_err(e);
}

// ---------------------------------------------------------------- harness
void begin(const Cfg &c) {
  In in;
  W = new World;
  W->cfg = c;
  W->root = mk(DIR_, nullptr);
  W->cwd = W->root;
  W->fds.reserve(256);
}
void end() {
  In in;
  delete W;
  W = nullptr;
  on_op = nullptr;
}
void restart() {
  In in;
  W->dead = false;
  W->cfg.crashAt = 0;
  W->fds.clear();
  W->files.clear();
  W->dirs.clear();
  ev("restart");
}
static void reset() {
  W = nullptr;
  g_depth = 0;
  on_op = nullptr;
}
static struct AtReset {
  AtReset() { at_reset(reset); }
} g_atReset;
bool crashed() { return W->dead; }
Cfg &cfg() { return W->cfg; }
static Ptr look(const std::string &p, bool follow) {
  Res r = resolve(p, follow);
  return r.err ? nullptr : r.node;
}
static int add(const std::string &path, Type t, const std::string &d) {
  In in;
  Res r = resolve(path, false);
  if (r.err)
    return r.err;
  if (r.node) {
    if (t == FILE_ && r.node->type == FILE_) {
      r.node->data = d;
      return 0;
    }
    return EEXIST;
  }
  Ptr n = mk(t, r.dir);
  n->data = d;
  r.dir->kids[r.last] = n;
  r.dir->order.push_back(r.last);
  W->used += d.size();
  return 0;
}
int put(const std::string &p, const std::string &d) { return add(p, FILE_, d); }
int make_dir(const std::string &p) { return add(p, DIR_, ""); }
int make_link(const std::string &p, const std::string &t) {
  return add(p, LINK_, t);
}
int make_special(const std::string &p, Type t) { return add(p, t, ""); }
static void drop(const Ptr &dir, const std::string &name) {
  dir->kids.erase(name);
  auto &o = dir->order;
  o.erase(std::remove(o.begin(), o.end(), name), o.end());
}
bool remove_(const std::string &path) {
  In in;
  Res r = resolve(path, false);
  if (r.err || !r.node || r.node == W->root)
    return false;
  drop(r.dir, r.last);
  return true;
}
Type type(const std::string &p) {
  In in;
  Ptr n = look(p, false);
  return n ? n->type : NONE;
}
Type type_follow(const std::string &p) {
  In in;
  Ptr n = look(p, true);
  return n ? n->type : NONE;
}
std::string get(const std::string &p) {
  In in;
  Ptr n = look(p, true);
  return n ? n->data : std::string();
}
void deny(const std::string &p, bool on) {
  In in;
  Ptr n = look(p, true);
  if (n)
    n->denied = on;
}
static void list_into(const Ptr &n, const std::string &pre,
                      std::vector<std::string> &out) {
  for (auto &k : n->kids) {
    out.push_back(pre + "/" + k.first);
    if (k.second->type == DIR_)
      list_into(k.second, pre + "/" + k.first, out);
  }
}
std::vector<std::string> list() {
  In in;
  std::vector<std::string> out;
  list_into(W->root, "", out);
  return out;
}
void set_cwd(const std::string &p) {
  In in;
  Ptr n = look(p, true);
  if (n)
    W->cwd = n;
}
uint64_t ops() { return W->nOps; }
uint64_t mutations() { return W->nMut; }
int open_handles() {
  int n = 0;
  for (auto d : W->dirs)
    n += 1 - (d->fd >= 0);
  for (auto &f : W->fds)
    n += f.open;
  return n;
}
const std::vector<std::string> &failed_paths() { return W->failedPaths; }
const Fired &fired() { return W->fired; }
uint64_t now_ns() { return W->now; }
uint64_t wall_ns() {
  return W->cfg.epochSec * 1000000000ull + W->now + W->skew * 1000000000ll;
}
void advance_ns(uint64_t ns) {
  W->now += ns;
  add_time_ns(ns);
}
void jump_clock(int64_t s) { W->skew += s; }

// ------------------------------------------------------------------ calls
static Fd *fd_of(int fd) {
  if (fd < FD0 || (size_t)(fd - FD0) >= W->fds.size() ||
      !W->fds[fd - FD0].open)
    return nullptr;
  return &W->fds[fd - FD0];
}
static bool ours(int fd) { return W && fd >= FD0; }

static int s_open(const std::string &path, int flags) {
  In in;
  if (!step("open", path))
    return ret_err(EIO);
  if (roll(W->cfg.openErr)) {
    int e = flags & O_CREAT
                ? pick({ENOENT, EACCES, EMFILE, ENOSPC, EROFS, ENFILE})
                : pick({ENOENT, EACCES, EMFILE, EIO, ENFILE});
    return inject("open", path, e, W->fired.open, "fault.open_error");
  }
  Res r = resolve(path, !(flags & O_NOFOLLOW));
  if (r.err)
    return ret_err(r.err);
  int acc = flags & O_ACCMODE;
  if (!r.node) {
    if (!(flags & O_CREAT))
      return ret_err(ENOENT);
    if (r.slash)
      return ret_err(EISDIR);
    if (r.dir->denied)
      return ret_err(EACCES);
    r.node = mk(FILE_, r.dir);
    r.dir->kids[r.last] = r.node;
    r.dir->order.push_back(r.last);
    W->nMut++;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL))
      return ret_err(EEXIST);
    if (r.node->denied)
      return ret_err(EACCES);
    if (r.node->type == DIR_ && acc != O_RDONLY)
      return ret_err(EISDIR);
    if ((flags & O_DIRECTORY) && r.node->type != DIR_)
      return ret_err(ENOTDIR);
    if (r.node->type == LINK_)
      return ret_err(ELOOP);
    if (r.node->type == SOCK_)
      return ret_err(ENXIO);
    if ((flags & O_TRUNC) && r.node->type == FILE_) {
      W->used -= std::min<uint64_t>(W->used, r.node->data.size());
      r.node->data.clear();
      W->nMut++;
    }
  }
  size_t i = 0;
  while (i < W->fds.size() && W->fds[i].open)
    i++;
  if (i == W->fds.size())
    W->fds.emplace_back();
  Fd &f = W->fds[i];
  f = Fd();
  f.node = r.node;
  f.flags = flags;
  f.open = true;
  ev("open %s -> %zu", path.c_str(), i);
  return FD0 + (int)i;
}
static int s_close(int fd) {
  In in;
  Fd *f = fd_of(fd);
  if (!f)
    return ret_err(EBADF);
  bool alive = step("close", "");
  f = fd_of(fd);
  f->open = false;
  f->node = nullptr;
  if (!alive)
    return 0;
  ev("close %d", fd - FD0);
  if (roll(W->cfg.closeErr))
    return inject("close", "", EIO, W->fired.close, "fault.close_error");
  return 0;
}
static ssize_t s_read(int fd, char *b, size_t n, int64_t off) {
  In in;
  if (!step("read", ""))
    return ret_err(EIO);
  Fd *f = fd_of(fd);
  if (!f || (f->flags & O_ACCMODE) == O_WRONLY)
    return ret_err(EBADF);
  if (roll(W->cfg.eintr))
    return inject("read", "", EINTR, W->fired.eintr, "fault.interrupted");
  if (roll(W->cfg.readErr))
    return inject("read", "", pick({EIO, EIO, ESTALE}), W->fired.read,
                  "fault.read_error");
  if (f->node->type == DIR_)
    return ret_err(EISDIR);
  const std::string &d = f->node->data;
  uint64_t pos = off >= 0 ? (uint64_t)off : f->pos;
  if (pos >= d.size() || !n)
    return 0;
  size_t k = std::min<uint64_t>(n, d.size() - pos);
  if (k > 1 && roll(W->cfg.shortIo)) {
    k = 1 + draw(FAULT, k - 1);
    W->fired.shortIo++;
    count("fault.short_read");
    shape(k * 7 + 1);
  }
  memcpy(b, d.data() + pos, k);
  if (off < 0)
    f->pos += k;
  ev("read %d @%llu %zu -> %zu", fd - FD0, (unsigned long long)pos, n, k);
  return k;
}
static ssize_t s_write(int fd, const char *b, size_t n) {
  In in;
  bool alive = step("write", "");
  Fd *f = fd_of(fd);
  if (!f || (f->flags & O_ACCMODE) == O_RDONLY)
    return ret_err(EBADF);
  std::string &d = f->node->data;
  size_t k = n;
  if (!alive) {
    if (!W->diedHere || !n)
      return ret_err(EIO);
    // this very call: a prefix may have reached the disk
    k = draw(FAULT, n + 1);
    count("fault.torn_write");
  } else {
    if (roll(W->cfg.eintr))
      return inject("write", "", EINTR, W->fired.eintr, "fault.interrupted");
    if (roll(W->cfg.writeErr))
      return inject("write", "", pick({EIO, ENOSPC, EDQUOT}), W->fired.write,
                    "fault.write_error");
    if (k > 1 && roll(W->cfg.shortIo)) {
      k = 1 + draw(FAULT, k - 1);
      W->fired.shortIo++;
      count("fault.short_write");
      shape(k * 7 + 2);
    }
  }
  uint64_t pos = f->flags & O_APPEND ? d.size() : f->pos;
  uint64_t grow = pos + k > d.size() ? pos + k - d.size() : 0;
  if (grow && W->used + grow > W->cfg.diskLimit) {
    uint64_t room = W->cfg.diskLimit > W->used ? W->cfg.diskLimit - W->used : 0;
    uint64_t lim = d.size() + room;
    if (pos >= lim || n == 0)
      return inject("write", "", ENOSPC, W->fired.full, "fault.disk_full");
    k = std::min<uint64_t>(k, lim - pos);
    grow = pos + k > d.size() ? pos + k - d.size() : 0;
  }
  if (pos + k > (64u << 20))
    return ret_err(EFBIG);
  if (pos + k > d.size())
    d.resize(pos + k, 0);
  if (k)
    memcpy(&d[pos], b, k);
  W->used += grow;
  W->nMut++;
  f->pos = pos + k;
  ev("write %d @%llu %zu -> %zu", fd - FD0, (unsigned long long)pos, n, k);
  if (!alive)
    return ret_err(EIO);
  return k;
}
static int64_t s_lseek(int fd, int64_t off, int wh) {
  In in;
  if (!step("lseek", ""))
    return ret_err(EIO);
  Fd *f = fd_of(fd);
  if (!f)
    return ret_err(EBADF);
  if (roll(W->cfg.seekErr))
    return inject("lseek", "", pick({EIO, EOVERFLOW}), W->fired.seek,
                  "fault.seek_error");
  if (f->node->type == FIFO_ || f->node->type == SOCK_)
    return ret_err(ESPIPE);
  int64_t base = wh == SEEK_SET   ? 0
                 : wh == SEEK_CUR ? (int64_t)f->pos
                                  : (int64_t)f->node->data.size();
  if (wh > SEEK_END || base + off < 0)
    return ret_err(EINVAL);
  f->pos = base + off;
  ev("lseek %d -> %lld", fd - FD0, (long long)f->pos);
  return f->pos;
}
static void fill(struct stat *s, const Ptr &n) {
  memset(s, 0, sizeof *s);
  static const unsigned m[] = {0,       S_IFREG, S_IFDIR, S_IFLNK,
                               S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK};
  static const unsigned perm[] = {0755, 0600, 0777, 06711, 01700, 0644};
  s->st_mode = m[n->type] | (n->denied ? 0 : perm[n->ino % 6]);
  s->st_ino = n->ino;
  s->st_nlink = 1 + n->ino % 3;
  s->st_dev = 77;
  s->st_size = n->data.size();
  s->st_blksize = 4096;
}
static int s_stat(const std::string &path, struct stat *s, bool follow) {
  In in;
  const char *op = follow ? "stat" : "lstat";
  if (!step(op, path))
    return ret_err(EIO);
  if (roll(W->cfg.statErr))
    return inject(op, path, pick({EIO, EACCES, ENOMEM}), W->fired.stat,
                  "fault.stat_error");
  Res r = resolve(path, follow);
  if (r.err)
    return ret_err(r.err);
  if (!r.node)
    return ret_err(ENOENT);
  fill(s, r.node);
  ev("%s %s -> type %d", op, path.c_str(), r.node->type);
  return 0;
}
static int s_fstat(int fd, struct stat *s) {
  In in;
  Fd *f = fd_of(fd);
  if (!f)
    return ret_err(EBADF);
  if (!step("fstat", ""))
    return ret_err(EIO);
  fill(s, f->node);
  return 0;
}
static int s_mkdir(const std::string &path) {
  In in;
  if (!step("mkdir", path))
    return ret_err(EIO);
  std::string bare = path; // a final link is not followed
  while (bare.size() > 1 && bare.back() == '/')
    bare.pop_back();
  Res r = resolve(bare, false);
  if (!r.err && !r.node && roll(W->cfg.mkdirErr))
    return inject("mkdir", path, pick({EACCES, ENOSPC, EROFS, EIO}),
                  W->fired.mkdir, "fault.mkdir_error");
  int e = r.err ? r.err
          : r.node ? EEXIST
          : r.dir->denied ? EACCES
                          : 0;
  ev("mkdir %s -> %s", path.c_str(), e ? strerrorname_np(e) : "0");
  if (e)
    return ret_err(e);
  Ptr n = mk(DIR_, r.dir);
  r.dir->kids[r.last] = n;
  r.dir->order.push_back(r.last);
  W->nMut++;
  return 0;
}
static int s_unlink(const std::string &path, bool dir) {
  In in;
  if (!step(dir ? "rmdir" : "unlink", path))
    return ret_err(EIO);
  Res r = resolve(path, false);
  if (r.err)
    return ret_err(r.err);
  if (!r.node)
    return ret_err(ENOENT);
  if (dir != (r.node->type == DIR_))
    return ret_err(dir ? ENOTDIR : EISDIR);
  if (dir && !r.node->kids.empty())
    return ret_err(ENOTEMPTY);
  drop(r.dir, r.last);
  W->nMut++;
  ev("remove %s", path.c_str());
  return 0;
}
static int s_rename(const std::string &a, const std::string &b) {
  In in;
  if (!step("rename", a))
    return ret_err(EIO);
  Res x = resolve(a, false), y = resolve(b, false);
  if (x.err || y.err)
    return ret_err(x.err ? x.err : y.err);
  if (!x.node)
    return ret_err(ENOENT);
  if (y.node)
    drop(y.dir, y.last);
  Ptr n = x.node;
  drop(x.dir, x.last);
  y.dir->kids[y.last] = n;
  y.dir->order.push_back(y.last);
  n->up = y.dir;
  W->nMut++;
  ev("rename %s %s", a.c_str(), b.c_str());
  return 0;
}
static Dir *s_opendir(const std::string &path) {
  In in;
  if (!step("opendir", path)) {
    errno = EIO;
    return nullptr;
  }
  if (roll(W->cfg.dirErr)) {
    inject("opendir", path, pick({EACCES, EMFILE, ENOMEM, EIO}),
           W->fired.dir, "fault.opendir_error");
    return nullptr;
  }
  Res r = resolve(path, true);
  int e = r.err             ? r.err
          : !r.node         ? ENOENT
          : r.node->type != DIR_ ? ENOTDIR
          : r.node->denied  ? EACCES
                            : 0;
  ev("opendir %s -> %s", path.c_str(), e ? strerrorname_np(e) : "0");
  if (e) {
    errno = e;
    return nullptr;
  }
  Dir *d = new Dir();
  d->node = r.node;
  d->path = path;
  Ptr up = r.node->up.lock();
  d->ents.emplace_back(".", r.node);
  d->ents.emplace_back("..", up ? up : r.node);
  for (auto &k : r.node->order)
    d->ents.emplace_back(k, r.node->kids[k]);
  if (W->cfg.shuffle)
    for (size_t i = d->ents.size(); i > 1; i--)
      std::swap(d->ents[i - 1], d->ents[draw(SCHED, i)]);
  W->dirs.insert(d);
  return d;
}
static unsigned char dtype(Type t) {
  static const unsigned char m[] = {DT_UNKNOWN, DT_REG, DT_DIR, DT_LNK,
                                    DT_FIFO, DT_SOCK, DT_CHR, DT_BLK};
  return m[t];
}
static dirent *s_readdir(Dir *d) {
  In in;
  if (!step("readdir", "")) {
    errno = EIO;
    return nullptr;
  }
  while (d->at < d->ents.size()) {
    auto &e = d->ents[d->at];
    if (e.first != "." && e.first != ".." && !d->node->kids.count(e.first)) {
      d->at++; // removed since
      continue;
    }
    if (W->cfg.dirErr && d->at > 2 && roll(W->cfg.dirErr / 8)) {
      inject("readdir", d->path, EIO, W->fired.dir, "fault.readdir_error");
      return nullptr;
    }
    d->at++;
    memset(&d->d, 0, sizeof d->d);
    d->d.d_ino = e.second->ino;
    d->d.d_reclen = sizeof d->d;
    bool hide = W->cfg.dtUnknown;
    d->d.d_type = hide ? DT_UNKNOWN : dtype(e.second->type);
    if (hide)
      count("fault.dirent_type_unknown");
    strncpy(d->d.d_name, e.first.c_str(), sizeof d->d.d_name - 1);
    ev("readdir -> %s%s", e.first.c_str(), hide ? " (type unknown)" : "");
    return &d->d;
  }
  return nullptr;
}
static int s_closedir(Dir *d) {
  In in;
  step("closedir", "");
  W->dirs.erase(d);
  if (d->fd >= 0)
    W->fds[d->fd].open = false;
  delete d;
  return 0;
}

// FILE streams over simulated descriptors
static ssize_t ck_read(void *c, char *b, size_t n) {
  return s_read((int)(intptr_t)c, b, n, -1);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  // as the C library does: again after a short write, an error ends it;
  // cookie writers report errors as a short count
  size_t done = 0;
  while (done < n) {
    ssize_t r = s_write((int)(intptr_t)c, b + done, n - done);
    if (r <= 0)
      break;
    done += r;
  }
  return done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  int64_t r = s_lseek((int)(intptr_t)c, *off, wh);
  if (r < 0)
    return -1;
  *off = r;
  return 0;
}
static int ck_close(void *c) { return s_close((int)(intptr_t)c); }
static FILE *s_fopen(const char *path, const char *mode) {
  int flags;
  bool plus = strchr(mode, '+');
  switch (mode[0]) {
  case 'r':
    flags = plus ? O_RDWR : O_RDONLY;
    break;
  case 'w':
    flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    break;
  case 'a':
    flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    break;
  default:
    errno = EINVAL;
    return nullptr;
  }
  int fd = s_open(path, flags);
  if (fd < 0)
    return nullptr;
  In in;
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  W->files[f] = fd;
  return f;
}

} // namespace fs
} // namespace sim

using namespace sim;
using namespace sim::fs;

template <class F> static F next(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
#define NEXT(ret, name, ...)                                                   \
  mem::NoFail noFail_;                                                         \
  static ret (*real)(__VA_ARGS__) = next<ret (*)(__VA_ARGS__)>(name)

INTERPOSE FILE *fopen(const char *p, const char *m) {
  NEXT(FILE *, "fopen", const char *, const char *);
  return on() ? s_fopen(p, m) : real(p, m);
}
INTERPOSE FILE *fopen64(const char *p, const char *m) {
  NEXT(FILE *, "fopen64", const char *, const char *);
  return on() ? s_fopen(p, m) : real(p, m);
}
INTERPOSE int fileno(FILE *f) __THROW {
  NEXT(int, "fileno", FILE *);
  if (W) {
    In in;
    auto it = W->files.find(f);
    if (it != W->files.end())
      return it->second;
  }
  return real(f);
}
INTERPOSE int fclose(FILE *f) {
  NEXT(int, "fclose", FILE *);
  if (W) {
    In in;
    W->files.erase(f);
  }
  return real(f);
}
INTERPOSE int open(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, fl);
    m = va_arg(ap, mode_t);
    va_end(ap);
  }
  NEXT(int, "open", const char *, int, mode_t);
  return on() ? s_open(p, fl) : real(p, fl, m);
}
INTERPOSE int open64(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, fl);
    m = va_arg(ap, mode_t);
    va_end(ap);
  }
  NEXT(int, "open64", const char *, int, mode_t);
  return on() ? s_open(p, fl) : real(p, fl, m);
}
INTERPOSE int creat(const char *p, mode_t m) {
  NEXT(int, "creat", const char *, mode_t);
  return on() ? s_open(p, O_WRONLY | O_CREAT | O_TRUNC) : real(p, m);
}
INTERPOSE int close(int fd) {
  NEXT(int, "close", int);
  return ours(fd) ? s_close(fd) : real(fd);
}
INTERPOSE ssize_t read(int fd, void *b, size_t n) {
  NEXT(ssize_t, "read", int, void *, size_t);
  return ours(fd) ? s_read(fd, (char *)b, n, -1) : real(fd, b, n);
}
INTERPOSE ssize_t pread(int fd, void *b, size_t n, off_t o) {
  NEXT(ssize_t, "pread", int, void *, size_t, off_t);
  return ours(fd) ? s_read(fd, (char *)b, n, o) : real(fd, b, n, o);
}
INTERPOSE ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  NEXT(ssize_t, "pread64", int, void *, size_t, off64_t);
  return ours(fd) ? s_read(fd, (char *)b, n, o) : real(fd, b, n, o);
}
INTERPOSE ssize_t write(int fd, const void *b, size_t n) {
  NEXT(ssize_t, "write", int, const void *, size_t);
  return ours(fd) ? s_write(fd, (const char *)b, n) : real(fd, b, n);
}
INTERPOSE ssize_t writev(int fd, const iovec *v, int n) {
  NEXT(ssize_t, "writev", int, const iovec *, int);
  if (!ours(fd))
    return real(fd, v, n);
  std::string all;
  {
    In in;
    for (int i = 0; i < n; i++)
      all.append((const char *)v[i].iov_base, v[i].iov_len);
  }
  ssize_t r = s_write(fd, all.data(), all.size());
  In in;
  std::string().swap(all);
  return r;
}
INTERPOSE off_t lseek(int fd, off_t o, int w) __THROW {
  NEXT(off_t, "lseek", int, off_t, int);
  return ours(fd) ? s_lseek(fd, o, w) : real(fd, o, w);
}
INTERPOSE off64_t lseek64(int fd, off64_t o, int w) __THROW {
  NEXT(off64_t, "lseek64", int, off64_t, int);
  return ours(fd) ? s_lseek(fd, o, w) : real(fd, o, w);
}
INTERPOSE int ioctl(int fd, unsigned long rq, ...) __THROW {
  va_list ap;
  va_start(ap, rq);
  void *a = va_arg(ap, void *);
  va_end(ap);
  NEXT(int, "ioctl", int, unsigned long, void *);
  return ours(fd) ? ret_err(ENOTTY) : real(fd, rq, a);
}
INTERPOSE int poll(pollfd *p, nfds_t n, int t) {
  NEXT(int, "poll", pollfd *, nfds_t, int);
  if (n == 1 && ours(p[0].fd)) {
    p[0].revents = p[0].events;
    return 1;
  }
  return real(p, n, t);
}
INTERPOSE int stat(const char *p, struct stat *s) __THROW {
  NEXT(int, "stat", const char *, struct stat *);
  return on() ? s_stat(p, s, true) : real(p, s);
}
INTERPOSE int stat64(const char *p, struct stat64 *s) __THROW {
  NEXT(int, "stat64", const char *, struct stat64 *);
  return on() ? s_stat(p, (struct stat *)s, true) : real(p, s);
}
INTERPOSE int lstat(const char *p, struct stat *s) __THROW {
  NEXT(int, "lstat", const char *, struct stat *);
  return on() ? s_stat(p, s, false) : real(p, s);
}
INTERPOSE int lstat64(const char *p, struct stat64 *s) __THROW {
  NEXT(int, "lstat64", const char *, struct stat64 *);
  return on() ? s_stat(p, (struct stat *)s, false) : real(p, s);
}
INTERPOSE int fstat(int fd, struct stat *s) __THROW {
  NEXT(int, "fstat", int, struct stat *);
  return ours(fd) ? s_fstat(fd, s) : real(fd, s);
}
INTERPOSE int fstat64(int fd, struct stat64 *s) __THROW {
  NEXT(int, "fstat64", int, struct stat64 *);
  return ours(fd) ? s_fstat(fd, (struct stat *)s) : real(fd, s);
}
static std::string dir_path(int dfd, const char *p) {
  // directory descriptors of DIR streams carry a path prefix via dirfd()
  In in;
  if (p[0] == '/' || dfd == AT_FDCWD)
    return p;
  Fd *f = fd_of(dfd);
  if (!f)
    return p;
  std::string r;
  Ptr n = f->node;
  while (n && n != W->root) {
    Ptr u = n->up.lock();
    if (!u)
      break;
    for (auto &k : u->kids)
      if (k.second == n) {
        r = "/" + k.first + r;
        break;
      }
    n = u;
  }
  return r + "/" + p;
}
INTERPOSE int fstatat(int d, const char *p, struct stat *s, int fl) __THROW {
  NEXT(int, "fstatat", int, const char *, struct stat *, int);
  return on() ? s_stat(dir_path(d, p), s, !(fl & AT_SYMLINK_NOFOLLOW))
              : real(d, p, s, fl);
}
INTERPOSE int fstatat64(int d, const char *p, struct stat64 *s,
                        int fl) __THROW {
  NEXT(int, "fstatat64", int, const char *, struct stat64 *, int);
  return on() ? s_stat(dir_path(d, p), (struct stat *)s,
                       !(fl & AT_SYMLINK_NOFOLLOW))
              : real(d, p, s, fl);
}
INTERPOSE int access(const char *p, int m) __THROW {
  NEXT(int, "access", const char *, int);
  struct stat s;
  return on() ? s_stat(p, &s, true) : real(p, m);
}
INTERPOSE int mkdir(const char *p, mode_t m) __THROW {
  NEXT(int, "mkdir", const char *, mode_t);
  return on() ? s_mkdir(p) : real(p, m);
}
INTERPOSE int mkdirat(int d, const char *p, mode_t m) __THROW {
  NEXT(int, "mkdirat", int, const char *, mode_t);
  return on() ? s_mkdir(dir_path(d, p)) : real(d, p, m);
}
INTERPOSE int rmdir(const char *p) __THROW {
  NEXT(int, "rmdir", const char *);
  return on() ? s_unlink(p, true) : real(p);
}
INTERPOSE int unlink(const char *p) __THROW {
  NEXT(int, "unlink", const char *);
  return on() ? s_unlink(p, false) : real(p);
}
INTERPOSE int remove(const char *p) __THROW {
  NEXT(int, "remove", const char *);
  if (!on())
    return real(p);
  return s_unlink(p, type(p) == DIR_);
}
INTERPOSE int rename(const char *a, const char *b) __THROW {
  NEXT(int, "rename", const char *, const char *);
  return on() ? s_rename(a, b) : real(a, b);
}
INTERPOSE int chdir(const char *p) __THROW {
  NEXT(int, "chdir", const char *);
  if (!on())
    return real(p);
  In in;
  Ptr n = look(p, true);
  if (!n || n->type != DIR_)
    return ret_err(n ? ENOTDIR : ENOENT);
  W->cwd = n;
  return 0;
}
INTERPOSE DIR *opendir(const char *p) {
  NEXT(DIR *, "opendir", const char *);
  return on() ? (DIR *)s_opendir(p) : real(p);
}
static bool our_dir(DIR *d) {
  if (!W)
    return false;
  In in;
  return W->dirs.count((Dir *)d) != 0;
}
INTERPOSE dirent *readdir(DIR *d) {
  NEXT(dirent *, "readdir", DIR *);
  return our_dir(d) ? s_readdir((Dir *)d) : real(d);
}
INTERPOSE dirent64 *readdir64(DIR *d) {
  NEXT(dirent64 *, "readdir64", DIR *);
  return our_dir(d) ? (dirent64 *)s_readdir((Dir *)d) : real(d);
}
INTERPOSE void rewinddir(DIR *d) __THROW {
  NEXT(void, "rewinddir", DIR *);
  if (our_dir(d))
    ((Dir *)d)->at = 0;
  else
    real(d);
}
INTERPOSE int dirfd(DIR *d) __THROW {
  NEXT(int, "dirfd", DIR *);
  if (!our_dir(d))
    return real(d);
  In in;
  Dir *sd = (Dir *)d;
  if (sd->fd < 0) {
    W->fds.emplace_back();
    W->fds.back().node = sd->node;
    W->fds.back().open = true;
    sd->fd = (int)W->fds.size() - 1;
  }
  return FD0 + sd->fd;
}
INTERPOSE int closedir(DIR *d) {
  NEXT(int, "closedir", DIR *);
  return our_dir(d) ? s_closedir((Dir *)d) : real(d);
}
INTERPOSE int system(const char *c) {
  if (sim::active()) {
    sim::ev("system(%s) not run", c ? c : "");
    return -1;
  }
  NEXT(int, "system", const char *);
  return real(c);
}

// ------------------------------------------------------------------ clock
INTERPOSE int clock_gettime(clockid_t id, timespec *t) __THROW {
  NEXT(int, "clock_gettime", clockid_t, timespec *);
  if (!on())
    return real(id, t);
  uint64_t n = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE
                   ? wall_ns()
                   : W->now;
  t->tv_sec = n / 1000000000ull;
  t->tv_nsec = n % 1000000000ull;
  return 0;
}
INTERPOSE int gettimeofday(timeval *t, void *z) __THROW {
  NEXT(int, "gettimeofday", timeval *, void *);
  if (!on())
    return real(t, z);
  uint64_t n = wall_ns();
  t->tv_sec = n / 1000000000ull;
  t->tv_usec = n % 1000000000ull / 1000;
  return 0;
}
INTERPOSE time_t time(time_t *t) __THROW {
  NEXT(time_t, "time", time_t *);
  if (!on())
    return real(t);
  time_t v = wall_ns() / 1000000000ull;
  if (t)
    *t = v;
  return v;
}
INTERPOSE int get_nprocs(void) __THROW {
  NEXT(int, "get_nprocs", void);
  return on() ? (int)W->cfg.hwThreads : real();
}
INTERPOSE long sysconf(int n) __THROW {
  NEXT(long, "sysconf", int);
  if (on() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF))
    return W->cfg.hwThreads;
  return real(n);
}
