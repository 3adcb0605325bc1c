// C07: archive readers; C08: reflection metadata; C09: pointer fixups, all
// used from several threads at once.
#include "../sim/core.hpp"
#include "../sim/threads.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/flags.hpp"
#include "datas/pointer.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector_io.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/zip_vfs.hpp"
#include <cstring>
#include <istream>
#include <memory>
#include <streambuf>
#include <string>
#include <thread>
#include <vector>

using namespace sim;

thread_local std::vector<void *> es::usedPts;

namespace {

ThreadCfg draw_cfg() {
  ThreadCfg c;
  c.policy = work(3);
  static const uint32_t iv[] = {200, 60, 20, 6};
  c.meanInterval = iv[work(4)];
  if (chance(WORK, 1, 8))
    c.spuriousNum = 1 + work(8);
  if (chance(WORK, 1, 8))
    c.starveThread = 1 + work(4);
  return c;
}

// ------------------------------------------------------------------- C07

// The archive's medium: every operation is a scheduling point and may take
// simulated time; transfers come in pieces.
class SlowBuf : public std::streambuf {
public:
  std::string data;
  size_t pos = 0, chunk = 16;
  bool slow = false;
  uint64_t failIn = 0; // operations until the medium fails (0: never)
  uint64_t failFor = 0; // how many operations fail then
  int failHow = 0;
  uint64_t ops = 0, firstFault = 0;
  uint64_t last[64] = {}; // operation each thread did last
  char buf[64];

  // true: this operation fails
  bool stall() {
    last[self_id() % 64] = ++ops;
    if (failIn && !--failIn) {
      if (!firstFault)
        firstFault = ops;
      count(failHow ? "fault.medium_eof" : "fault.medium_throws");
      ev("fault: the medium %s", failHow ? "ends early" : "throws");
      failIn = --failFor ? 1 : 0;
      if (!failHow)
        throw std::runtime_error("medium");
      return true;
    }
    yield_point();
    if (slow && chance(SCHED, 1, 4))
      sleep_ns(1000 * (1 + draw(SCHED, 50)));
    return false;
  }
  size_t where() const { return pos - (egptr() - gptr()); }
  int_type underflow() override {
    if (stall())
      return traits_type::eof();
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    size_t n = std::min(std::min(chunk, sizeof buf), data.size() - pos);
    if (!n)
      return traits_type::eof();
    memcpy(buf, data.data() + pos, n);
    pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir way,
                   std::ios_base::openmode) override {
    if (stall())
      return pos_type(off_type(-1));
    off_type base = way == std::ios_base::beg   ? 0
                    : way == std::ios_base::cur ? (off_type)where()
                                                : (off_type)data.size();
    if (base + off < 0 || base + off > (off_type)data.size())
      return pos_type(off_type(-1));
    if (off || way != std::ios_base::cur) {
      setg(buf, buf, buf);
      pos = base + off;
    }
    return pos_type(base + off);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override {
    return seekoff(off_type(p), std::ios_base::beg, m);
  }
};

void put(std::string &s, uint64_t v, int n) {
  for (int i = 0; i < n; i++)
    s.push_back((char)(v >> (8 * i)));
}

struct ZEntry {
  std::string name, data;
};

std::string content(uint64_t tag, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++)
    r.push_back((char)(tag * 31 + i * 7 + (i >> 8) * 13 + 1));
  return r;
}

std::string make_zip(const std::vector<ZEntry> &es_) {
  std::string z;
  for (auto &e : es_) {
    put(z, 0x04034b50, 4);
    put(z, 20, 2);
    put(z, 0, 2);
    put(z, 0, 2);
    put(z, 0, 4);
    put(z, 0, 4);
    put(z, e.data.size(), 4);
    put(z, e.data.size(), 4);
    put(z, e.name.size(), 2);
    put(z, 0, 2);
    z += e.name;
    z += e.data;
  }
  return z;
}

void c07() {
  ThreadCfg c = draw_cfg();
  std::vector<ZEntry> files;
  int nf = 1 + work(5);
  for (int i = 0; i < nf; i++) {
    static const size_t sizes[] = {1, 7, 40, 130, 400};
    files.push_back({"dir/file" + std::to_string(i),
                     content(i + 1, sizes[work(5)] + work(9))});
  }
  const int nth = 1 + work(4);
  if (nth < 2)
    trivial();
  SlowBuf dev;
  dev.data = make_zip(files);
  dev.chunk = 1 + work(64);
  dev.slow = chance(WORK, 1, 2);
  // workload
  struct Op {
    int file, how, cut, part;
  };
  std::vector<std::vector<Op>> ops(nth);
  for (auto &o : ops) {
    int n = 1 + work(5);
    for (int i = 0; i < n; i++)
      o.push_back({(int)work(nf), (int)work(3), (int)work(3), (int)work(5)});
  }
  ev("files=%d threads=%d chunk=%zu policy=%d", nf, nth, dev.chunk, c.policy);
  threads_begin(c);
  {
    std::istream is(&dev);
    ZIPVFS vfs{BinReaderRef(is)};
    SIM_CHECK(vfs.size() == files.size(), "zip.index", "%zu of %zu entries",
              vfs.size(), files.size());
    const bool faulty = chance(FAULT, 1, 4);
    if (faulty) {
      dev.failIn = 1 + draw(FAULT, 40);
      dev.failFor = 1 + draw(FAULT, 3);
      dev.failHow = (int)draw(FAULT, 2);
    }
    auto body = [&](int t) {
      std::vector<ZIPVFSFile> kept;
      std::vector<int> keptOf;
      kept.reserve(8);
      for (auto &o : ops[t]) {
        const ZEntry &want = files[o.file];
        {
          NoPreempt np;
          ev("t%d gets %s", self_id(), want.name.c_str());
        }
        std::unique_ptr<ZIPVFSFile> fetched;
        const bool oom = chance(FAULT, 1, 16);
        if (oom)
          alloc_fail_at(1 + draw(FAULT, 5));
        bool noMemory = false;
        uint64_t begun;
        {
          NoPreempt np;
          begun = dev.ops;
        }
        auto disarm = [&] {
          noMemory = alloc_fail_fired();
          alloc_fail_at(0);
        };
        try {
          fetched.reset(new ZIPVFSFile(
              o.how == 0   ? vfs.Get(want.name)
              : o.how == 1 ? vfs.Get(vfs.find(want.name))
                           : vfs.Get(vfs.at(want.name))));
          disarm();
        } catch (const std::exception &e) {
          NoPreempt np;
          disarm();
          SIM_CHECK(noMemory || is.fail(), "zip.spurious_failure",
                    "%s cannot be fetched though the medium is sound: %s",
                    want.name.c_str(), e.what());
          const uint64_t mine = dev.last[self_id() % 64];
          SIM_CHECK(noMemory || mine <= begun || mine >= dev.firstFault,
                    "zip.spurious_failure",
                    "%s cannot be fetched though the medium failed only after "
                    "it was read: %s", want.name.c_str(), e.what());
          count("probe.failed_fetch");
          continue;
        }
        std::string got, more;
        size_t part = 0;
        if (o.part) { // partly read when it is moved
          BinReaderRef rd = *fetched;
          part = want.data.size() * o.part / 4;
          rd.ReadContainer(got, part);
        }
        const bool swapped = (o.part + o.file) & 1;
        const size_t origin = o.how == 1 ? part : 0;
        const bool marked = o.part & 2;
        fetched->reader.SwapEndian(swapped);
        if (marked)
          fetched->reader.Push();
        fetched->reader.SetRelativeOrigin(origin, false);
        ZIPVFSFile f(std::move(*fetched));
        fetched.reset();
        if (o.cut == 2 && !kept.empty()) { // over another one and back
          const size_t k = o.part % kept.size();
          ZIPVFSFile other(std::move(kept[k]));
          kept[k] = std::move(f);
          f = std::move(kept[k]);
          kept[k] = std::move(other);
        }
        BinReaderRef rd = f;
        SIM_CHECK(rd.SwappedEndian() == swapped && f.reader.Tell() == part - origin,
                  "zip.position",
                  "%s was at %zu in %s byte order, after moving it is at %zu in %s",
                  want.name.c_str(), part - origin, swapped ? "swapped" : "native",
                  f.reader.Tell(), rd.SwappedEndian() ? "swapped" : "native");
        rd.ResetRelativeOrigin(false);
        if (marked) {
          rd.Seek(0);
          rd.Pop();
        }
        size_t size = rd.GetSize();
        SIM_CHECK(size == want.data.size(), "zip.size",
                  "%s has %zu bytes, read as %zu", want.name.c_str(),
                  want.data.size(), size);
        SIM_CHECK(rd.Tell() == part, "zip.position",
                  "%s was read up to %zu, after moving it is at %zu",
                  want.name.c_str(), part, rd.Tell());
        rd.ReadContainer(more, size - part);
        SIM_CHECK(got + more == want.data, "zip.content",
                  "%s is read with content of something else",
                  want.name.c_str());
        if (o.cut == 1 && kept.size() < 8) {
          kept.push_back(std::move(f));
          keptOf.push_back(o.file);
        }
      }
      for (size_t i = 0; i < kept.size(); i++) {
        std::string got;
        BinReaderRef rd = kept[i];
        rd.ResetRelativeOrigin();
        rd.ReadContainer(got, rd.GetSize());
        SIM_CHECK(got == files[keptOf[i]].data, "zip.content",
                  "kept %s changed", files[keptOf[i]].name.c_str());
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < nth; t++)
      th.emplace_back(body, t);
    body(0);
    for (auto &t : th)
      t.join();
    // the medium recovered: nothing of the archive was lost
    dev.failIn = 0;
    is.clear();
    if (faulty)
      body(0);
  }
  threads_end();
}

} // namespace

// ------------------------------------------------------------------- C08

REFLECTOR_CREATE(ShEnumA, ENUM, 2, CLASS, 8, Alpha, Beta, Gamma = 9, Delta,
                 Epsilon = 0x20, Zeta);
REFLECTOR_CREATE(ShEnumB, ENUM, 2, CLASS, 16, Red = 7, Green = 16586,
                 Blue = 0x8bcd, Black);
REFLECTOR_CREATE(ShEnumC, ENUM, 0, SheC_1, SheC_2, SheC_3, SheC_4, SheC_5,
                 SheC_6, SheC_7 = 0x1000);
REFLECTOR_CREATE(ShEnumD, ENUM, 2, CLASS, 64, Big = 0x123456789ab, Bigger,
                 Small = 3);

struct ShInner {
  int32 a;
  float b;
  ShEnumB e;
  void ReflectorTag();
};
REFLECTOR_CREATE(ShInner, 1, VARNAMES, a, b, e);

struct ShData : ReflectorBase<ShData> {
  bool flag;
  int8 i8;
  uint16 u16;
  int32 i32;
  uint64 u64;
  float f;
  double d;
  ShEnumA ea;
  ShEnumB eb;
  es::Flags<ShEnumC, uint16> fl;
  Vector vec;
  int32 arr[4];
  ShEnumA earr[3];
  ShInner inner;
  ShInner inners[2];
  std::string text;
};
REFLECTOR_CREATE(ShData, 1, EXTENDED, (, flag), (A, i8, "eight"), (, u16),
                 (D, i32, "Length of it is%metres"), (, u64), (, f), (, d),
                 (AD, ea, "letter", "Letter%!"), (, eb), (, fl), (, vec),
                 (, arr), (, earr), (, inner), (, inners), (, text));

namespace {

template <class E>
void check_enum(const char *what, std::vector<std::pair<const char *, uint64>> w) {
  ReflectedEnum e = GetReflectedEnum<E>();
  SIM_CHECK(e.size() == w.size(), "refl.enum_size", "%s has %zu members", what,
            e.size());
  for (size_t i = 0; i < w.size(); i++) {
    SIM_CHECK(e[i] == es::string_view(w[i].first), "refl.enum_name",
              "%s member %zu has a wrong name", what, i);
    SIM_CHECK(e.values[i] == w[i].second, "refl.enum_value",
              "%s: %s has value %llu instead of %llu", what, w[i].first,
              (unsigned long long)e.values[i],
              (unsigned long long)w[i].second);
  }
  for (auto &p : w)
    SIM_CHECK(e.find(p.second) == es::string_view(p.first), "refl.enum_find",
              "%s: value %llu is not found as %s", what,
              (unsigned long long)p.second, p.first);
  SIM_CHECK(e.find(0xdeadbeefdead).empty(), "refl.enum_find",
            "%s: unknown value is found", what);
  SIM_CHECK(e.name == es::string_view(what), "refl.enum_name",
            "%s has a wrong name", what);
}

void check_enum_k(int k) {
  switch (k) {
  case 0:
    return check_enum<ShEnumA>("ShEnumA", {{"Alpha", 0},
                                           {"Beta", 1},
                                           {"Gamma", 9},
                                           {"Delta", 10},
                                           {"Epsilon", 0x20},
                                           {"Zeta", 0x21}});
  case 1:
    return check_enum<ShEnumB>(
        "ShEnumB",
        {{"Red", 7}, {"Green", 16586}, {"Blue", 0x8bcd}, {"Black", 0x8bce}});
  case 2:
    return check_enum<ShEnumC>("ShEnumC", {{"SheC_1", 0},
                                           {"SheC_2", 1},
                                           {"SheC_3", 2},
                                           {"SheC_4", 3},
                                           {"SheC_5", 4},
                                           {"SheC_6", 5},
                                           {"SheC_7", 0x1000}});
  default:
    return check_enum<ShEnumD>("ShEnumD", {{"Big", 0x123456789ab},
                                           {"Bigger", 0x123456789ac},
                                           {"Small", 3}});
  }
}

void check_class() {
  const reflectorStatic *r = GetReflectedClass<ShData>();
  SIM_CHECK(r && r->nTypes == 16 && r->types && r->typeNames && r->className &&
                r->typeAliases && r->typeAliasHashes && r->typeDescs,
            "refl.class", "class metadata is incomplete");
  SIM_CHECK(es::string_view(r->className) == es::string_view("ShData"),
            "refl.class", "wrong class name");
  static const char *const names[] = {"flag", "i8",   "u16",  "i32",
                                      "u64",  "f",    "d",    "ea",
                                      "eb",   "fl",   "vec",  "arr",
                                      "earr", "inner", "inners", "text"};
  size_t last = 0;
  for (uint32 i = 0; i < 16; i++) {
    SIM_CHECK(es::string_view(r->typeNames[i]) == es::string_view(names[i]) &&
                  r->types[i].ID == i &&
                  r->types[i].valueNameHash == JenHash(es::string_view(names[i])),
              "refl.class", "member %u is described wrongly", i);
    SIM_CHECK(r->types[i].offset >= last, "refl.class", "member order");
    last = r->types[i].offset;
  }
  SIM_CHECK(r->typeAliases[1] && es::string_view(r->typeAliases[1]) ==
                                     es::string_view("eight") &&
                !r->typeAliases[0] && r->typeDescs[3].part2.size() == 6,
            "refl.class", "aliases or descriptions are wrong");
}

struct ROp {
  int kind, member, value;
};

std::string apply(ShData &d, const ROp &o) {
  static const char *const members[] = {"flag", "i8",  "u16", "i32",  "u64",
                                        "f",    "d",   "ea",  "eb",   "fl",
                                        "vec",  "arr", "earr", "text", "letter",
                                        "eight"};
  static const char *const texts[] = {
      "true",  "false", "12",     "-7",    "3.25",  "Beta", "Delta", "Blue",
      "Green", "SheC_2 | SheC_4", "[1.5, 2, 3]", "{4, 5, 6, 7}",
      "{Gamma, Zeta, Alpha}", "hello",  "0x1f", "nonsense", "99999999999",
      "SheC_1|SheC_6|SheC_3"};
  const char *m = members[o.member % 16];
  const char *v = texts[o.value % 18];
  switch (o.kind) {
  case 0:
    return std::to_string((int)d.SetReflectedValue(JenHash(es::string_view(m)), v));
  case 1:
    return std::to_string((int)d.SetReflectedValueInt(JenHash(es::string_view(m)), o.value * 3 - 20));
  case 2:
    return std::to_string((int)d.SetReflectedValueUInt(JenHash(es::string_view(m)), o.value * 5));
  case 3:
    return std::to_string((int)d.SetReflectedValueFloat(JenHash(es::string_view(m)), o.value * 0.25));
  case 4:
    return d.GetReflectedValue(JenHash(es::string_view(m)));
  case 5: {
    Reflector::KVPairFormat f;
    f.aliasName = o.value & 1;
    f.formatValue = o.value & 2;
    auto p = d.GetReflectedPair(JenHash(es::string_view(m)), f);
    return std::string(p.name.data(), p.name.size()) + "=" + p.value;
  }
  case 6: {
    ReflectedInstance i =
        d.GetReflectedSubClass(JenHash(es::string_view(o.value & 1 ? "inner" : "inners")), o.value & 1 ? 0 : (o.value >> 1) & 1);
    ReflectorPureWrap w(i);
    std::string r = std::to_string((int)w.SetReflectedValue(
        JenHash(es::string_view(o.value & 4 ? "e" : "a")), v));
    return r + w.GetReflectedValue(size_t(0)) + w.GetReflectedValue(size_t(2));
  }
  default: {
    std::stringstream ss;
    BinWritterRef wr(ss);
    int r = ReflectorBinUtil::Save(d, wr);
    ShData e{};
    BinReaderRef rd(ss);
    int r2 = ReflectorBinUtil::Load(e, rd);
    std::string res = std::to_string(r) + std::to_string(r2);
    for (size_t i = 0; i < 16; i++)
      res += e.GetReflectedValue(i) + ";";
    return res;
  }
  }
}

void c08() {
  ThreadCfg c = draw_cfg();
  const int nth = 1 + work(4);
  const bool firstUse = work(2);
  if (nth < 2)
    trivial();
  std::vector<std::vector<ROp>> ops(nth);
  std::vector<std::vector<int>> enums(nth);
  for (int t = 0; t < nth; t++) {
    int n = 1 + work(firstUse ? 4 : 12);
    for (int i = 0; i < n; i++) {
      enums[t].push_back(work(5));
      ops[t].push_back({(int)work(8), (int)work(16), (int)work(72)});
    }
  }
  ev("threads=%d first_use=%d policy=%d", nth, firstUse, c.policy);
  std::vector<std::vector<std::string>> want(nth);
  if (!firstUse) {
    RegisterReflectedTypes<ShEnumA, ShEnumB, ShEnumC, ShEnumD, ShInner>{};
    for (int t = 0; t < nth; t++) {
      ShData d{};
      for (auto &o : ops[t])
        want[t].push_back(apply(d, o));
    }
  }
  threads_begin(c);
  {
    auto body = [&](int t) {
      if (firstUse) {
        for (int k : enums[t]) {
          if (k == 4)
            check_class();
          else
            check_enum_k(k);
        }
        return;
      }
      ShData d{};
      for (size_t i = 0; i < ops[t].size(); i++) {
        std::string got = apply(d, ops[t][i]);
        SIM_CHECK(got == want[t][i], "refl.shared",
                  "thread %d op %zu (kind %d member %d value %d) gives '%s' "
                  "instead of '%s'",
                  t, i, ops[t][i].kind, ops[t][i].member, ops[t][i].value,
                  got.c_str(), want[t][i].c_str());
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < nth; t++)
      th.emplace_back(body, t);
    body(0);
    for (auto &t : th)
      t.join();
  }
  threads_end();
}

// ------------------------------------------------------------------- C09

struct Node64 {
  esPointerX64<char> p;
};
struct Node32 {
  esPointerX86<char> p;
};

constexpr int MAXP = 40;

void c09() {
  ThreadCfg c = draw_cfg();
  const int allocMode = work(3);
  // a big file is fixed up before
  const size_t table = allocMode || work(100) < 99 ? 0 : 1000 + work(work(8) ? 8000 : 70000);
  const int nth = 1 + work(table ? 2 : 4);
  struct Plan {
    std::vector<int> order; // which pointer is fixed up, in which order
    std::vector<int> failAt, how;
    int clearAt, rootAt;
  };
  // a few pointers, or as many as a real file has
  const bool many = work(4) == 0;
  const int np = table ? 1 + work(3) : many ? 8 + work(MAXP - 8) : 1 + work(6);
  if (table)
    c.maxSteps = 40000000;
  std::vector<Plan> plans(nth);
  for (auto &p : plans) {
    int n = table ? 1 + work(4) : many ? 1 + work(6 * MAXP) : 1 + work(14);
    for (int i = 0; i < n; i++) {
      p.order.push_back(work(np * 2));
      p.failAt.push_back(allocMode && chance(FAULT, 1, 4) ? 1 : 0);
      p.how.push_back(work(64));
    }
    p.clearAt = chance(WORK, 1, 3) ? (int)work(n) : -1;
    p.rootAt = work(3) ? 0 : work(64);
  }
  if (nth < 2 && !allocMode && !table)
    trivial();
  ev("threads=%d pointers=%d alloc=%d policy=%d", nth, np, allocMode, c.policy);
  threads_begin(c);
  {
    auto body = [&](int t) {
      // one block: pointers first, targets behind
      struct Block {
        char before[64];
        Node64 n64[MAXP];
        Node32 n32[MAXP];
        char target[3 * MAXP + 64];
      };
      std::unique_ptr<Block> b(new Block());
      // offsets count from the block's start, or from within
      const int at = plans[t].rootAt;
      char *root = reinterpret_cast<char *>(b.get()) + at;
      auto target = [&](int i) {
        return i % 5 == 4 ? b->before + 64 - 1 - i : b->target + 3 * i + t;
      };
      auto init = [&] {
        memset(b.get(), 0, sizeof(Block));
        for (int i = 0; i < np; i++) {
          uint64_t off = target(i) - root;
          uint32_t off32 = (uint32_t)off;
          bool null = i % 4 == 3;
          if (null)
            off = off32 = 0;
          memcpy(&b->n64[i], &off, 8);
          memcpy(&b->n32[i], &off32, 4);
        }
      };
      init();
      bool fixed[2 * MAXP] = {};
      char *now[2 * MAXP] = {}; // where fixed ones point
      ClearESPointers();
      std::unique_ptr<Node64[]> first;
      std::vector<char> there;
      if (table && !t) {
        NoPreempt np_;
        ev("t%d a table of %zu pointers", t, table);
        count("probe.pointer_table");
        first.reset(new Node64[table]);
        there.resize(table);
        for (size_t i = 0; i < table; i++) {
          memcpy(&first[i], &i, 8);
          SIM_CHECK(first[i].p.Fixup(there.data(), true) == !!i, "ptr.result",
                    "fixup of pointer %zu of a table", i);
        }
        for (size_t n = 3, i = 0; n--; i = n ? work(table) : table - 1) {
          SIM_CHECK(first[i].p.Fixed(), "ptr.fixed",
                    "pointer %zu of a table is not marked as fixed", i);
          SIM_CHECK(!first[i].p.Fixup(there.data()), "ptr.result",
                    "pointer %zu of a table is fixed up again", i);
          SIM_CHECK((char *)first[i].p == (i ? &there[i] : nullptr), "ptr.target",
                    "pointer %zu of a table points elsewhere", i);
        }
      }
      for (size_t k = 0; k < plans[t].order.size(); k++) {
        if ((int)k == plans[t].clearAt) {
          // a new block is loaded into the same memory
          ClearESPointers();
          init();
          memset(fixed, 0, sizeof fixed);
          memset(now, 0, sizeof now);
        }
        int which = plans[t].order[k], i = which / 2;
        bool x32 = which & 1, null = i % 4 == 3 || target(i) == root;
        bool did = false, threw = false;
        const int how = plans[t].how[k];
        if (fixed[which] && now[which] && how % 8 == 7) {
          // made to point elsewhere by hand
          char *to = how % 16 == 15 ? nullptr : b->target + (how * 5 + k) % sizeof b->target;
          if (x32)
            b->n32[i].p = to;
          else
            b->n64[i].p = to;
          now[which] = to;
          NoPreempt np_;
          ev("t%d pointer %d is set", self_id(), which);
        }
        // told to not look whether it was done
        const bool force = !fixed[which] && how % 4 == 3;
        if (plans[t].failAt[k])
          alloc_fail_at(1);
        try {
          did = force ? x32 ? b->n32[i].p.Fixup(root, true) : b->n64[i].p.Fixup(root, true)
                : x32 ? b->n32[i].p.Fixup(root) : b->n64[i].p.Fixup(root);
        } catch (const std::bad_alloc &) {
          threw = true;
        }
        bool fired = alloc_fail_fired();
        alloc_fail_at(0);
        {
          NoPreempt np_;
          ev("t%d fixup %d: %d%s", self_id(), which, did,
             threw ? " (no memory)" : "");
        }
        if (threw) {
          SIM_CHECK(fired, "ptr.spurious", "unexpected bad_alloc");
          // nothing happened: still not relocated
          SIM_CHECK(!(x32 ? b->n32[i].p.Fixed() : b->n64[i].p.Fixed()) ||
                        fixed[which],
                    "ptr.half_done", "a failed fixup counts as done");
          continue;
        }
        SIM_CHECK(did == (!fixed[which] && !null), "ptr.result",
                  "fixup of pointer %d returns %d (already fixed %d)", which,
                  did, fixed[which]);
        if (!fixed[which])
          now[which] = null ? nullptr : target(i);
        fixed[which] = true;
        SIM_CHECK(x32 ? b->n32[i].p.Fixed() : b->n64[i].p.Fixed(), "ptr.fixed",
                  "pointer %d is not marked as fixed", which);
        const char *want = now[which];
        const Block &cb = *b;
        const char *got = nullptr;
        switch (want ? how / 8 % 4 : 0) {
        case 0:
          got = x32 ? (char *)b->n32[i].p : (char *)b->n64[i].p;
          break;
        case 1:
          got = x32 ? (const char *)cb.n32[i].p : (const char *)cb.n64[i].p;
          break;
        case 2:
          got = x32 ? &*b->n32[i].p : &*b->n64[i].p;
          break;
        case 3:
          got = x32 ? how & 1 ? cb.n32[i].p.operator->() : b->n32[i].p.operator->()
                    : how & 1 ? cb.n64[i].p.operator->() : &*cb.n64[i].p;
          break;
        }
        SIM_CHECK(got == want, "ptr.target",
                  "pointer %d of thread %d points %ld bytes off its target",
                  which, t, (long)(got - want));
      }
      // every other pointer is untouched
      for (int w = 0; w < np * 2; w++)
        if (fixed[w])
          SIM_CHECK(now[w] == (w & 1 ? (char *)b->n32[w / 2].p : (char *)b->n64[w / 2].p),
                    "ptr.isolation", "pointer %d of thread %d points elsewhere", w, t);
      for (int w = 0; w < np * 2; w++)
        SIM_CHECK(fixed[w] ==
                      (w & 1 ? b->n32[w / 2].p.Fixed() : b->n64[w / 2].p.Fixed()),
                  "ptr.isolation",
                  "pointer %d of thread %d: fixed state is wrong", w, t);
      ClearESPointers();
    };
    std::vector<std::thread> th;
    for (int t = 1; t < nth; t++)
      th.emplace_back(body, t);
    body(0);
    for (auto &t : th)
      t.join();
  }
  threads_end();
}

} // namespace

SIM_PROP("C07", c07);
SIM_PROP("C08", c08);
SIM_PROP("C09", c09);
