// C26: the session log of an application; C27: containers and elements that
// may use somebody else's storage.
#include "reflgen.hpp"
#include "../sim/fs.hpp"
#include "datas/settings_manager.hpp"
#include "datas/allocator_hybrid.hpp"
#include "uni/list_vector.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <sstream>

using namespace sim;
using namespace rg;

namespace {
struct Setup {
  Setup() { at_reset(forget); }
} g_setup;

const Obj *g_settings;
} // namespace

struct AppSettings : SettingsManager<AppSettings> {
  ReflectedInstance GetReflectedInstance() const override {
    return g_settings->inst();
  }
};
template <> struct ReflectorInterface<AppSettings> {
  static const reflectorStatic *GetReflector() { return g_settings->c->refl(); }
};

namespace {
// ------------------------------------------------------------------- C26

std::string *g_seen;
void sink(const char *s) {
  mem::NoFail nf;
  *g_seen += s;
}

std::string stamp(const char *fmt, uint64_t ns) {
  time_t t = ns / 1000000000;
  std::tm tm = *localtime(&t);
  char b[128];
  strftime(b, sizeof b, fmt, &tm);
  return b;
}

void some_message() {
  static const size_t len[] = {6, 0, 100, 1, 3000, 9000, 700};
  std::string s(len[work(7)], 0);
  uint64_t k = work(1000);
  for (size_t i = 0; i < s.size(); i++)
    s[i] = "abc %s\t<>\\\"0123"[(k + i * 5) % 15];
  switch (work(4)) {
  case 0:
    printline(s);
    break;
  case 1:
    printwarning(s << work(100));
    break;
  case 2:
    printerror("code " << s);
    break;
  default:
    printline(s << '\n' << 1.5 << s);
  }
}

struct Log {
  std::string path, head;
  size_t from; // what the sinks had got when it began
};

std::string help(const Cls *c, size_t level) {
  std::string r;
  for (auto &x : c->m) {
    r += std::string(level, '\t') + (c->names ? x.name : "") + "\n";
    if (c->ext && x.part1.size())
      r += std::string(level + 1, '\t') + x.part1 + "\n";
    if (x.sub)
      r += help(x.sub, level + 1);
    else if (x.kind == REFType::Enum && !x.array) {
      r += std::string(level + 1, '\t') + "Values: ";
      for (auto &n : x.en->names)
        r += n + ", ";
      r += "\n";
    }
  }
  return r;
}

void c26() {
  static const char *zones[] = {"UTC0", "ABC-5:30", "DEF8", "GHI-13", "JKL12"};
  setenv("TZ", zones[work(5)], 1);
  tzset();
  World w;
  Opt o;
  o.classes = o.bits = false;
  o.maxMembers = work(12) == 11 ? 150 : 6;
  Obj obj(w.make_class(0, o));
  Obj::each(obj.c, obj.p, [&](const Member &x, char *at, const std::string &) {
    if (x.kind == REFType::Enum)
      memcpy(at, &x.en->values[work(x.en->values.size())], x.stride);
    else if (x.kind == REFType::EnumFlags) {
      uint64 v = 0;
      for (uint64 b : x.en->values)
        if (b < x.stride * 8 && work(2))
          v |= 1ull << b;
      memcpy(at, &v, x.stride);
    } else if (x.kind == REFType::String)
      *(std::string *)at = some_string(true);
    else if (x.kind == REFType::Bool)
      *at = work(2);
    else
      memset(at, work(3), x.stride);
  });
  g_settings = &obj;
  fs::Cfg cfg;
  static const uint64_t era[] = {1700000000, 3000000, 951782400 /* leap day */,
                                 4102444799u /* year's end */, 1u << 31};
  cfg.epochSec = era[work(5)] + work(100000);
  cfg.hwThreads = work(3) ? 4 : work(200);
  if (draw(FAULT, 2))
    cfg.shortIo = 1 + draw(FAULT, 600);
  if (draw(FAULT, 3) == 2)
    cfg.eintr = 1 + draw(FAULT, 300);
  int kind = draw(FAULT, 7);
  fs::begin(cfg);
  fs::make_dir("/logs");
  std::string seen;
  g_seen = &seen;
  printer.AddPrinterFunction(sink, false);
  AppSettings app;
  if (work(4) == 3) {
    Obj other(w.make_class(2, Opt()));
    for (size_t n = 1 + work(3); n; n--) { // again and for another class
      const Obj *of = n % 2 ? &other : &obj;
      g_settings = of;
      std::ostringstream str;
      app.GetHelp(str);
      g_settings = &obj;
      std::string want = (of->c->names ? of->c->name : "") + " settings.\n" +
                         help(of->c, 1), is = str.str();
      size_t at = std::mismatch(is.begin(), is.end(), want.begin(), want.end()).first - is.begin();
      SIM_CHECK(is == want, "help",
                "the help differs at %zu, it has \"%.80s\" where \"%.80s\" is expected",
                at, is.c_str() + at, want.c_str() + std::min(at, want.size()));
    }
  }
  std::vector<Log> logs;
  Log coming;
  std::string before; // an older log of that name
  bool denied = false;
  if (draw(FAULT, 8) == 7) {
    fs::deny("/logs", denied = true);
  }
  uint64_t hard0 = 0; // faults since the current log began
  bool healthy = false;
  std::string confirmed;
  auto hard = [] {
    return fs::fired().open + fs::fired().write + fs::fired().close +
           fs::fired().seek + fs::fired().full + fs::fired().eintr;
  };
  auto expected = [&] {
    return logs.back().head + seen.substr(logs.back().from);
  };
  auto begin = [&] {
    uint64_t t0 = fs::wall_ns();
    uint64_t h0 = hard();
    std::string name = work(2) ? "/logs/app" : "/logs/my.tool";
    Log l;
    l.path = name + stamp("_%y_%m_%d-%H.%M.%S", t0) + ".txt";
    l.from = seen.size();
    l.head = "Current time: " + stamp("%c %Z", t0) +
             "\nNumber of concurrent threads: " +
             std::to_string(fs::cfg().hwThreads) + "\nConfiguration:\n";
    ReflectedInstance in = obj.inst();
    ReflectorPureWrap rw(in);
    for (size_t i = 0; i < obj.c->m.size(); i++) {
      auto &x = obj.c->m[i];
      std::string v = rw.GetReflectedValue(i);
      l.head += "\t" +
                (!obj.c->names             ? ""
                 : obj.c->ext && x.hasAlias ? x.alias
                                            : x.name) +
                ": " + v.c_str() + "\n";
    }
    l.head += "\n";
    coming = l;
    before = fs::get(l.path);
    app.CreateLog(name);
    if (fs::crashed())
      return;
    coming.path.clear();
    logs.push_back(l);
    confirmed.clear();
    hard0 = hard();
    healthy = !denied && hard0 == h0;
    ev("CreateLog %s: %s", l.path.c_str(), healthy ? "fine" : "disturbed");
    if (healthy) {
      SIM_CHECK(fs::type(l.path) == fs::FILE_, "log",
                "there is no log file %s", l.path.c_str());
      SIM_CHECK(fs::get(l.path) == l.head, "log",
                "the log begins with \"%.200s\", expected \"%.200s\"",
                fs::get(l.path).c_str(), l.head.c_str());
      confirmed = l.head;
    }
  };
  auto died = [&] {
    fs::restart();
    ev("restart, log %s, being begun %s", logs.empty() ? "none" : logs.back().path.c_str(), coming.path.c_str());
    bool over = !logs.empty() && coming.path == logs.back().path;
    if (coming.path.size() && fs::type(coming.path) == fs::FILE_) {
      std::string is = fs::get(coming.path);
      SIM_CHECK(is == before || !coming.head.compare(0, is.size(), is) ||
                    (over && !expected().compare(0, is.size(), is)),
                "log", "a log being begun holds \"%.80s\"", is.c_str());
    }
    if (!logs.empty() && !over && healthy) {
      // what reached the file before stays, nothing else appears
      std::string is = fs::get(logs.back().path), all = expected();
      SIM_CHECK(is.size() >= confirmed.size() &&
                    !is.compare(0, confirmed.size(), confirmed),
                "log", "a crash took away what was in the log");
      if (hard() == hard0)
        SIM_CHECK(!all.compare(0, is.size(), is), "log",
                  "after a crash the log holds something that was not logged");
    }
    fs::end();
  };
  size_t steps = 1 + work(12);
  size_t armed = kind ? draw(FAULT, steps) : ~0ull;
  size_t heal = kind ? armed + 1 + draw(FAULT, 8) : ~0ull;
  for (size_t i = 0; i < steps; i++) {
    if (i == armed) {
      fs::Cfg &c = fs::cfg();
      switch (kind) {
      case 1:
        c.openErr = 700;
        break;
      case 2:
        c.writeErr = 100 + draw(FAULT, 900);
        break;
      case 3:
        c.diskLimit = draw(FAULT, 20000);
        break;
      case 4:
        c.closeErr = 600;
        break;
      default:
        c.crashAt = fs::ops() + 1 + draw(FAULT, 12);
      }
    }
    if (i == heal) {
      fs::Cfg clean;
      clean.epochSec = fs::cfg().epochSec;
      clean.hwThreads = fs::cfg().hwThreads;
      fs::cfg() = clean;
      if (denied)
        fs::deny("/logs", denied = false);
    }
    if (work(4) == 3)
      fs::jump_clock((int64_t)work(200000) - 100000 * (int64_t)work(2));
    if (logs.empty() || work(6) == 5) {
      begin();
    } else {
      size_t had = seen.size();
      some_message();
      SIM_CHECK(seen.size() > had, "sink",
                "a message did not reach the other sink");
      if (work(5) == 4)
        AppSettings::GetLogger().flush();
    }
    if (fs::crashed()) {
      died();
      return;
    }
    if (logs.empty())
      continue;
    bool fault = hard() != hard0;
    if (healthy && !fault) {
      std::string is = fs::get(logs.back().path), all = expected();
      SIM_CHECK(!all.compare(0, is.size(), is), "log",
                "the log holds something that was not logged: \"%.80s\" "
                "instead of \"%.80s\"",
                is.c_str() + (std::mismatch(is.begin(), is.end(), all.begin()).first - is.begin()),
                all.c_str() + (std::mismatch(is.begin(), is.end(), all.begin()).first - is.begin()));
      SIM_CHECK(is.size() >= confirmed.size(), "log", "the log became shorter");
      confirmed = is;
    } else if (healthy) {
      std::string is = fs::get(logs.back().path);
      SIM_CHECK(!is.compare(0, confirmed.size(), confirmed), "log",
                "a fault changed what was already in the log");
    }
  }
  if (!logs.empty()) {
    AppSettings::GetLogger().flush();
    if (fs::crashed()) {
      died();
      return;
    }
    if (healthy && hard() == hard0)
      SIM_CHECK(fs::get(logs.back().path) == expected(), "log",
                "the log does not hold all that was logged: %zu of %zu bytes",
                fs::get(logs.back().path).size(), expected().size());
  }
  // whatever happened, a new log on a healthy machine is complete
  fs::Cfg clean;
  clean.epochSec = fs::cfg().epochSec;
  clean.hwThreads = fs::cfg().hwThreads;
  fs::cfg() = clean;
  if (denied)
    fs::deny("/logs", denied = false);
  begin();
  some_message();
  AppSettings::GetLogger().flush();
  SIM_CHECK(fs::get(logs.back().path) == expected(), "log",
            "a new log does not hold all that was logged");
  AppSettings::GetLogger().close();
  SIM_CHECK(fs::open_handles() == 0, "leak", "an older log is still open");
  fs::end();
}
SIM_PROP("C26", c26);

// ------------------------------------------------------------------- C27

struct Small {
  uint16_t a;
  uint8_t b;
  bool operator==(const Small &o) const { return a == o.a && b == o.b; }
};
template <class T> T value(uint64_t k);
template <> char value<char>(uint64_t k) { return (char)k; }
template <> uint64_t value<uint64_t>(uint64_t k) { return k * 0x9e3779b97f4a7c15ull; }
template <> Small value<Small>(uint64_t k) { return {(uint16_t)k, (uint8_t)(k >> 3)}; }

// Somebody else's storage, guarded on both ends.
template <class T> struct Block {
  static const size_t G = 32;
  char *raw;
  size_t n;
  explicit Block(size_t n_) : n(n_) {
    raw = (char *)malloc(n * sizeof(T) + 2 * G);
    memset(raw, 0xd7, n * sizeof(T) + 2 * G);
    for (size_t i = 0; i < n; i++) {
      T v = value<T>(i + 77);
      memcpy(raw + G + i * sizeof(T), &v, sizeof v);
    }
  }
  Block(const Block &) = delete;
  ~Block() { free(raw); }
  T *data() { return (T *)(raw + G); }
  void check(const char *when) {
    for (size_t i = 0; i < G; i++)
      SIM_CHECK((unsigned char)raw[i] == 0xd7 &&
                    (unsigned char)raw[G + n * sizeof(T) + i] == 0xd7,
                "overrun", "%s wrote outside of the linked storage", when);
  }
};

template <class T> void vectors() {
  using Vec = std::vector<T, es::allocator_hybrid<T>>;
  struct Slot {
    Vec v;
    std::vector<T> model;
    int block = -1; // linked to
  };
  std::deque<Block<T>> blocks;
  for (size_t n = 1 + work(3); n; n--)
    blocks.emplace_back(work(4) ? 1 + work(20) : work(3) * 100);
  std::vector<std::vector<T>> was; // what the blocks hold where not linked
  for (auto &b : blocks)
    was.emplace_back(b.data(), b.data() + b.n);
  std::deque<Slot> s(1 + work(3));
  auto linked_to = [&](int b) {
    for (auto &x : s)
      if (x.block == b)
        return true;
    return false;
  };
  size_t steps = 1 + work(20);
  uint64_t serial = 1;
  for (size_t i = 0; i < steps; i++) {
    Slot &x = s[work(s.size())], &y = s[work(s.size())];
    bool oom = draw(FAULT, 6) == 5;
    if (oom)
      mem::fail_at(1 + draw(FAULT, 2));
    std::vector<T> next;
    {
      mem::NoFail nf;
      next = x.model;
    }
    const char *what = "";
    bool threw = false, whole = true;
    int block = x.block;
    unsigned op = work(14);
    size_t n = work(4) ? work(24) : work(300);
    try {
      switch (op) {
      case 0: // link
      case 1: {
        what = "LinkStorage";
        int b = work(blocks.size());
        if (linked_to(b) || blocks[b].n == 0 && work(2))
          break;
        auto &bl = blocks[b];
        {
          mem::NoFail nf;
          next.assign(bl.data(), bl.data() + bl.n);
        }
        block = bl.n ? b : -1;
        if (op)
          es::allocator_hybrid_base::LinkStorage(x.v, bl.data(), bl.n);
        else
          es::allocator_hybrid_base::LinkStorage(x.v, bl.data(), bl.data() + bl.n);
        break;
      }
      case 2:
        what = "DisposeStorage";
        next.clear();
        block = -1;
        es::allocator_hybrid_base::DisposeStorage(x.v);
        break;
      case 3:
      case 4:
        what = "push_back";
        for (size_t k = 1 + work(op == 3 ? 1 : 40); k; k--) {
          T v = value<T>(serial++);
          x.v.push_back(v);
          mem::NoFail nf;
          next.push_back(v);
        }
        break;
      case 5:
        what = "resize";
        x.v.resize(n);
        {
          mem::NoFail nf;
          next.resize(n);
        }
        break;
      case 6: {
        what = "assign";
        whole = false;
        T v = value<T>(serial++);
        x.v.assign(n, v);
        mem::NoFail nf;
        next.assign(n, v);
        break;
      }
      case 7:
        what = "write";
        if (x.v.size()) {
          size_t at = work(x.v.size());
          x.v[at] = next[at] = value<T>(serial++);
        }
        break;
      case 8:
        what = "erase";
        if (x.v.size()) {
          size_t at = work(x.v.size());
          x.v.erase(x.v.begin() + at);
          next.erase(next.begin() + at);
        }
        break;
      case 9:
        what = "shrink_to_fit";
        x.v.shrink_to_fit();
        break;
      case 10: {
        what = "copy";
        if (&x == &y)
          break;
        Vec c(y.v);
        mem::NoFail nf;
        SIM_CHECK(c.empty() || c.data() != y.v.data(), "shared",
                  "a copy uses the storage of the original");
        next = y.model;
        x.v.swap(c);
        // the old storage goes with the copy
        block = -1;
        break;
      }
      case 11: {
        what = "copy assignment";
        if (&x == &y)
          break;
        whole = false;
        x.v = y.v;
        mem::NoFail nf;
        next = y.model;
        break;
      }
      case 12: {
        what = "move";
        if (&x == &y)
          break;
        x.v = std::move(y.v);
        mem::NoFail nf;
        next = y.model;
        block = y.block;
        y.v = Vec();
        y.model.clear();
        y.block = -1;
        break;
      }
      default: {
        what = "swap";
        if (&x == &y)
          break;
        x.v.swap(y.v);
        next.swap(y.model);
        std::swap(block, y.block);
      }
      }
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    bool fired = oom && mem::fired();
    mem::off();
    mem::NoFail nf;
    ev("%s%s", what, threw ? " failed" : "");
    SIM_CHECK(!threw || fired, "report", "%s failed without a reason", what);
    if (!threw) {
      x.model = next;
      x.block = block;
    } else if (op == 3 || op == 4) {
      x.model = next; // what was pushed before stays
    } else if (!whole) {
      // any contents, but its own
      x.model.assign(x.v.begin(), x.v.end());
    }
    // linked storage may have been left for own memory, not the reverse
    for (auto &z : s) {
      bool in = z.block >= 0 && z.v.data() == blocks[z.block].data();
      if (z.block >= 0 && !in) {
        auto &b = blocks[z.block];
        was[z.block].assign(b.data(), b.data() + b.n);
        z.block = -1;
      }
      if (z.block >= 0)
        SIM_CHECK(z.v.capacity() <= blocks[z.block].n, "overrun",
                  "after %s a container thinks it has %zu elements of linked "
                  "storage, there are %zu",
                  what, z.v.capacity(), blocks[z.block].n);
      for (size_t k = 0; k < blocks.size(); k++)
        SIM_CHECK((int)k == z.block || !z.v.capacity() ||
                      z.v.data() != blocks[k].data(),
                  "shared", "after %s a container uses storage it is not linked to",
                  what);
      for (auto &u : s)
        SIM_CHECK(&u == &z || !z.v.capacity() || z.v.data() != u.v.data(),
                  "shared", "after %s two containers share storage", what);
      SIM_CHECK(z.v.size() == z.model.size() &&
                    std::equal(z.model.begin(), z.model.end(), z.v.begin()),
                "value", "after %s a container does not hold its elements", what);
    }
    for (size_t k = 0; k < blocks.size(); k++) {
      blocks[k].check(what);
      if (linked_to(k))
        was[k].assign(blocks[k].data(), blocks[k].data() + blocks[k].n);
      else
        SIM_CHECK(std::equal(was[k].begin(), was[k].end(), blocks[k].data()),
                  "stray", "%s changed storage that is not linked", what);
    }
  }
}

// Elements of uni lists: owned ones are destroyed once, others never.
struct Thing : uni::Base {
  static std::set<const Thing *> *alive;
  int id;
  explicit Thing(int i) : id(i) {
    mem::NoFail nf;
    alive->insert(this);
  }
  ~Thing() {
    mem::NoFail nf;
    SIM_CHECK(alive->erase(this), "lifetime", "an element was destroyed twice");
  }
};
std::set<const Thing *> *Thing::alive;
using ThingList = uni::PolyVectorList<Thing, Thing>;
// Elements held by value, which tell how they are referred to.
struct Held {
  Thing *thing;
  operator uni::Element<const Thing>() const { return {thing, false}; }
};
using HeldList = uni::VectorList<Thing, Held>;
using IntList = uni::VectorList<int, int, uni::Vector>;

template <class L> bool refuses(const L &l, size_t at) {
  mem::NoFail nf; // throwing takes memory
  try {
    l.At(at);
  } catch (const std::out_of_range &) {
    return true;
  }
  return false;
}

template <class L, class M, class G> void walk(const L &l, const M &m, G get) {
  size_t i = 0;
  if (work(4) == 3)
    SIM_CHECK(refuses(l, l.Size() + work(3) * work(3)) && refuses(l, ~size_t()),
              "value", "a list gives an element it does not have");
  auto seen = [&](int id) {
    SIM_CHECK(i < m.size() && id == m[i], "value",
              "a list is iterated in another order or too far");
    i++;
  };
  switch (work(4)) {
  case 0:
    for (auto e : l)
      seen(get(e));
    break;
  case 1:
    for (auto b = l.begin(), e = l.end(); b != e; ++b)
      seen(get(*b));
    break;
  case 2:
    for (auto b = l.begin(), e = l.end(); !(b == e);) {
      auto was = b++;
      seen(get(*was));
    }
    break;
  default:
    for (size_t k = 0; k < l.Size(); k++)
      seen(get(work(2) ? l[k] : l.At(k)));
  }
  SIM_CHECK(i == m.size() && l.Size() == m.size(), "value",
            "a list is not iterated to its end");
}

void elements() {
  std::set<const Thing *> alive;
  Thing::alive = &alive;
  size_t freed0 = 0;
  (void)freed0;
  {
    std::deque<Thing> shared; // somebody else's
    for (size_t n = 1 + work(4); n; n--)
      shared.emplace_back(1000 + (int)n);
    std::unique_ptr<ThingList> list(new ThingList());
    std::vector<uni::Element<Thing>> els;
    std::vector<std::pair<int, bool>> model; // id, owned
    std::vector<int> lm;
    int serial = 0;
    for (size_t k = 1 + work(24); k; k--) {
      bool oom = draw(FAULT, 6) == 5;
      unsigned op = work(9);
      const char *what = "";
      bool threw = false;
      if (oom)
        mem::fail_at(1 + draw(FAULT, 3));
      try {
        switch (op) {
        case 0:
        case 1: {
          what = "owned";
          std::unique_ptr<Thing> t(new Thing(serial));
          auto e = op ? uni::ToElement(t) : uni::ToElement(std::move(t));
          SIM_CHECK(!t, "lifetime", "two owners of one element");
          els.emplace_back(std::move(e));
          mem::NoFail nf;
          model.emplace_back(serial++, true);
          break;
        }
        case 2: {
          what = "linked";
          Thing &t = shared[work(shared.size())];
          els.emplace_back(uni::Element<Thing>(&t, false));
          mem::NoFail nf;
          model.emplace_back(t.id, false);
          break;
        }
        case 3:
          what = "reset";
          if (els.size()) {
            size_t i = work(els.size());
            els[i].reset();
            model[i].first = -1;
          }
          break;
        case 4:
          what = "moved";
          if (els.size() > 1) {
            size_t i = work(els.size()), j = work(els.size());
            if (i != j) {
              els[i] = std::move(els[j]);
              model[i] = model[j];
              model[j].first = -1;
            }
          }
          break;
        case 5:
          what = "erased";
          if (els.size()) {
            size_t i = work(els.size());
            els.erase(els.begin() + i);
            model.erase(model.begin() + i);
          }
          break;
        case 6: {
          what = "stored";
          list->storage.emplace_back(new Thing(serial));
          mem::NoFail nf;
          lm.push_back(serial++);
          break;
        }
        case 7:
          what = "taken from a list";
          if (lm.size()) {
            size_t i = work(lm.size());
            els.emplace_back(uni::Element<Thing>(list->storage[i].get(), false));
            els.pop_back();
            auto c = list->At(i);
            SIM_CHECK(c->id == lm[i], "value", "At gives another element");
          }
          break;
        default: {
          what = "iterated";
          auto id = [](const uni::Element<const Thing> &e) { return e->id; };
          auto val = [](int v) { return v; };
          switch (work(6)) {
          case 0:
            walk(static_cast<const uni::List<Thing> &>(*list), lm, id);
            break;
          case 1:
            walk(*list, lm, id);
            break;
          case 2:
          case 3: {
            HeldList h;
            std::vector<int> hm;
            {
              mem::NoFail nf;
              for (size_t n = work(5); n; n--) {
                Thing &t = shared[work(shared.size())];
                h.storage.push_back(Held{&t});
                hm.push_back(t.id);
              }
            }
            if (work(2))
              walk(h, hm, id);
            else
              walk(static_cast<const uni::List<Thing> &>(h), hm, id);
            break;
          }
          default: {
            IntList n;
            std::vector<int> im;
            {
              mem::NoFail nf;
              for (size_t c = work(5); c; c--)
                im.push_back((int)work(1000));
              if (work(40) == 39)
                for (size_t c = 65500 + work(6000); c; c--)
                  im.push_back((int)c);
              n.storage = im;
            }
            if (work(2))
              walk(n, im, val);
            else
              walk(static_cast<const uni::Vector<int> &>(n), im, val);
          }
          }
        }
        }
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      bool fired = oom && mem::fired();
      mem::off();
      mem::NoFail nf;
      ev("%s%s", what, threw ? " failed" : "");
      SIM_CHECK(!threw || fired, "report", "%s failed without a reason", what);
      SIM_CHECK(els.size() == model.size() && list->Size() == lm.size(),
                "value", "elements were lost");
      std::set<const Thing *> want;
      for (auto &t : shared)
        want.insert(&t);
      for (auto &t : list->storage)
        want.insert(t.get());
      for (size_t i = 0; i < els.size(); i++) {
        SIM_CHECK(model[i].first < 0 ? !els[i]
                                     : els[i] && alive.count(els[i].get()) &&
                                           els[i]->id == model[i].first,
                  "lifetime", "after %s: an element is not what it was", what);
        if (els[i])
          want.insert(els[i].get());
      }
      // a failed emplace_back of a new pointer in `stored` may lose it: that
      // is how std::vector works
      if (threw && op == 6)
        for (auto it = alive.begin(); it != alive.end();)
          if (!want.count(*it)) {
            const Thing *t = *it++;
            delete t;
          } else {
            ++it;
          }
      SIM_CHECK(want == alive, "lifetime",
                "after %s: %zu elements exist, %zu are referred to", what,
                alive.size(), want.size());
    }
  }
  SIM_CHECK(alive.empty(), "lifetime", "%zu elements were never destroyed",
            alive.size());
}

// Unique pointers that own what they point to, or do not.
struct Counted {
  static std::map<const void *, int> *lives;
  Counted() { (*lives)[this] = 1; }
  ~Counted() {
    mem::NoFail nf;
    SIM_CHECK((*lives)[this] == 1, "lifetime", "an object was destroyed twice");
    (*lives)[this] = 0;
  }
};
std::map<const void *, int> *Counted::lives;

extern "C" int __sanitizer_get_ownership(const volatile void *p);

struct ByDelete {
  using D = es::deleter_hybrid;
  using T = Counted;
  static T *make() { return new T(); }
  static void drop(T *p) { delete p; }
  static bool live(T *p) { return (*Counted::lives)[p] == 1; }
};
struct ByFree {
  using D = es::deleter_hybrid_c;
  using T = char;
  static T *make() { return (char *)malloc(24); }
  static void drop(T *p) { free(p); }
  static bool live(T *p) { return __sanitizer_get_ownership(p) == 1; }
};

template <class K> void deleters() {
  mem::NoFail nf;
  using T = typename K::T;
  using D = typename K::D;
  using U = std::unique_ptr<T, D>;
  std::map<const void *, int> lives;
  Counted::lives = &lives;
  std::vector<T *> mine;           // never to be deleted by a pointer
  std::vector<std::pair<T *, bool>> all; // everything made, ought to live
  auto born = [&] {
    T *t = K::make();
    all.emplace_back(t, true);
    return t;
  };
  auto dies = [&](T *t) {
    for (auto &a : all)
      if (a.first == t)
        a.second = false;
  };
  for (size_t n = 1 + work(3); n; n--)
    mine.push_back(born());
  {
    std::vector<U> s(2 + work(4));
    struct M {
      T *p = nullptr;
      bool own = true; // as the deleter says
    };
    std::vector<M> m(s.size());
    auto gone = [&](M &x) {
      if (x.p && x.own)
        dies(x.p);
      x.p = nullptr;
    };
    for (size_t k = 1 + work(20); k; k--) {
      size_t i = work(s.size()), j = work(s.size());
      const char *what = "";
      switch (work(9)) {
      case 0:
      case 1: {
        what = "owned";
        T *t = born();
        gone(m[i]);
        m[i] = {t, true};
        if (work(2))
          s[i] = U(t);
        else
          s[i] = U(t, D(true));
        break;
      }
      case 2:
      case 3: {
        what = "borrowed";
        T *t = mine[work(mine.size())];
        gone(m[i]);
        m[i] = {t, false};
        s[i] = U(t, D(false));
        break;
      }
      case 4:
      case 5:
        what = "move assigned";
        if (i != j) {
          gone(m[i]);
          m[i] = m[j];
          m[j].p = nullptr;
          s[i] = std::move(s[j]);
        }
        break;
      case 6: {
        what = "move constructed";
        U u(std::move(s[i]));
        if (work(2)) { // ... and on into another one
          if (i != j)
            gone(m[j]);
          M was = m[i];
          m[i].p = nullptr;
          m[j] = was;
          s[j] = std::move(u);
        } else {
          gone(m[i]);
        }
        break;
      }
      case 7:
        what = "swapped";
        std::swap(m[i], m[j]);
        s[i].swap(s[j]);
        break;
      default:
        what = "reset";
        gone(m[i]);
        s[i].reset();
      }
      ev("%s", what);
      for (size_t q = 0; q < s.size(); q++)
        SIM_CHECK(s[q].get() == m[q].p, "value",
                  "after being %s a pointer points elsewhere", what);
      for (auto &a : all)
        SIM_CHECK(K::live(a.first) == a.second, "lifetime",
                  a.second ? "an object was destroyed that %s pointer does not own"
                           : "an object was not destroyed when %s pointer let go of it",
                  what);
    }
    for (auto &x : m)
      gone(x);
  }
  for (auto &a : all)
    SIM_CHECK(K::live(a.first) == a.second, "lifetime",
              a.second ? "an object somebody else owns was destroyed"
                       : "an owned object was never destroyed");
  for (T *t : mine)
    K::drop(t);
}

void c27() {
  mem::track(true);
  switch (work(6)) {
  case 0:
    vectors<char>();
    break;
  case 1:
    vectors<uint64_t>();
    break;
  case 2:
    vectors<Small>();
    break;
  case 3:
    if (work(2))
      deleters<ByDelete>();
    else
      deleters<ByFree>();
    break;
  default:
    elements();
  }
  SIM_CHECK(!mem::live_blocks(), "leak", "%zu blocks of memory were never freed",
            mem::live_blocks());
}
SIM_PROP_BATCH("C27", c27);
} // namespace
