// Reflected classes made up at run time: layouts, names, aliases, enums and
// nested classes drawn from the seed, plus objects of them to fill, compare
// and check for stray writes.
#pragma once
#include "../sim/core.hpp"
#include "../sim/mem.hpp"
#include "datas/reflector.hpp"
#include <cstring>
#include <sys/mman.h>
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace rg {
using namespace sim;

// The hash names are stored under, computed on its own
inline JenHash hash_of(const std::string &s) {
  uint64_t h = 0;
  for (unsigned char c : s) {
    h += c;
    h += h << 10;
    h ^= h >> 6;
    h &= 0xffffffffu;
  }
  h += h << 3;
  h ^= h >> 11;
  h += h << 15;
  return JenHash((uint32)h);
}

struct EnumDef {
  std::string name;
  std::vector<std::string> names;
  std::vector<uint64> values;
  JenHash hash;
  struct Io : ReflectedEnum {
    using ReflectedEnum::parent::push_back;
  };
  mutable std::deque<std::string> texts;
  Io make() const {
    Io e;
    // some are the beginnings of longer texts, like those of the macros
    for (size_t i = texts.size(); i < names.size(); i++)
      texts.push_back(names[i] + (i % 2 ? " = 5" : ""));
    for (size_t i = 0; i < names.size(); i++)
      e.push_back(es::string_view(texts[i].data(), names[i].size()));
    e.values = values.data();
    e.name = es::string_view(name.data(), name.size());
    e.hash = hash;
    return e;
  }
};

struct Cls;
struct Member {
  std::string name, alias, part1, part2;
  bool hasAlias = false;
  reflType t{};
  REFType kind{};      // of one element
  bool array = false;
  size_t count = 1;    // elements
  size_t stride = 0;   // bytes of one element
  const Cls *sub = nullptr;
  const EnumDef *en = nullptr;
};

struct Mirror { // reflectorStatic's layout
  JenHash classHash;
  uint32 nTypes;
  const reflType *types;
  const char *const *typeNames;
  const char *className;
  const char *const *typeAliases;
  const JenHash *typeAliasHashes;
  const _ReflDesc *typeDescs;
};
static_assert(sizeof(Mirror) == sizeof(reflectorStatic), "layout");

struct Cls {
  std::string name;
  JenHash hash;
  std::vector<Member> m;
  size_t size = 0, align = 1;
  bool names = true, ext = false;
  bool shared = false; // made as a sub class
  unsigned depth = 0;  // of classes within
  // bit field members, for a bit field class
  bool bits = false;
  // what reflectorStatic points to
  std::vector<reflType> types;
  std::vector<const char *> tn, ta;
  std::vector<JenHash> th;
  std::vector<_ReflDesc> td;
  alignas(8) char st[sizeof(Mirror)];
  const reflectorStatic *real = nullptr; // made by the library's macros
  const reflectorStatic *refl() const {
    return real ? real : reinterpret_cast<const reflectorStatic *>(st);
  }
  void seal() {
    real = nullptr;
    types.clear(), tn.clear(), ta.clear(), th.clear(), td.clear();
    types.reserve(1), tn.reserve(1), ta.reserve(1), th.reserve(1), td.reserve(1);
    for (size_t i = 0; i < m.size(); i++) {
      m[i].t.ID = i;
      m[i].t.valueNameHash = hash_of(m[i].name);
      types.push_back(m[i].t);
    }
    for (auto &x : m) {
      tn.push_back(x.name.c_str());
      ta.push_back(x.hasAlias ? x.alias.c_str() : nullptr);
      th.push_back(x.hasAlias ? hash_of(x.alias)
                              : JenHash{});
      td.push_back({es::string_view(x.part1.data(), x.part1.size()),
                    es::string_view(x.part2.data(), x.part2.size())});
    }
    Mirror s{hash,
             (uint32)m.size(),
             types.data(),
             names ? tn.data() : nullptr,
             names ? name.c_str() : nullptr,
             ext ? ta.data() : nullptr,
             ext ? th.data() : nullptr,
             ext ? td.data() : nullptr};
    memcpy(st, &s, sizeof s);
  }
};

struct Opt {
  bool strings = true, bits = true, classes = true, bitMembers = false;
  bool flags = true, enums = true, xml = false, cstrings = false;
  unsigned maxMembers = 9;
  bool written = true; // classes written with the macros, too
  bool nested = false; // the class becomes a member
};

// Everything made up in one run.
struct World {
  std::deque<EnumDef> enums;
  std::deque<Cls> classes;
  unsigned serial = 0;
  const EnumDef *writtenEnum[4] = {};
  const Cls *writtenCls[8] = {};
  Cls *written(unsigned depth, const Opt &o);
  bool huge = false; // descriptions and enums of more than 64 KiB

  std::string id(const char *p) {
    std::string r = p + std::to_string(serial++);
    if (work(12) == 11) // beyond ASCII
      r += work(2) ? "\xc3\xa9" : "\xe6\xbc\xa2z";
    if (work(12) == 11) // a long one
      r += std::string(work(20) == 19 ? 250 + work(600) : 10 + work(70), 'x') + "_";
    return r;
  }

  const EnumDef *make_enum(bool flag, size_t store = 1, bool empty = false) {
    enums.emplace_back();
    EnumDef &e = enums.back();
    e.name = id("Enum");
    e.hash = hash_of(e.name);
    if (empty) {
      REFEnumStorage[e.hash] = e.make();
      return &e;
    }
    uint64 v = 0;
    for (size_t n = 1 + work(work(6) ? 5 : 24), i = 0; i < n; i++) {
      // some names are beginnings or endings of others
      if (i && work(4) == 3) {
        std::string n = e.names[work(i)], more = id("E");
        e.names.push_back(work(2) ? n + more : more + n);
        if (work(2)) // the longer one comes first
          std::swap(e.names.back(), e.names[work(i)]);
      } else {
        e.names.push_back(id("E"));
      }
      e.values.push_back(v);
      v += 1 + (flag ? work(2 * store) : work(3) == 2 ? work(40) : 0);
      if (flag && v > store * 8 - 1)
        break;
      if (v > 250)
        break;
    }
    if (huge && !flag && store >= 4 && work(2))
      for (size_t n = e.names.size() + 66000; e.names.size() < n;) {
        e.names.push_back("H" + std::to_string(e.names.size()));
        e.values.push_back(++v);
      }
    // enumerators below zero are stored as 64 bits with the sign extended
    if (!flag && work(4) == 3) {
      e.names.push_back(id("N"));
      e.values.push_back(-(uint64)(1 + work(90)));
    }
    if (!flag && store == 8 && work(4) == 3) { // ... or far above
      e.names.push_back(id("W"));
      e.values.push_back(draw_u64(WORK) >> work(32));
    }
    REFEnumStorage[e.hash] = e.make();
    return &e;
  }

  const Cls *make_bits(size_t store) {
    classes.emplace_back();
    Cls &c = classes.back();
    c.bits = true;
    c.name = id("Bits");
    c.hash = hash_of(c.name);
    c.size = store;
    c.align = store;
    bool sgn = work(2);
    size_t pos = 0;
    while (pos < store * 8 && c.m.size() < 6) {
      size_t len = 1 + work(std::min<size_t>(store * 8 - pos, work(3) ? 9 : 64));
      Member b;
      b.name = id("b");
      b.kind = REFType::BitFieldMember;
      b.t.type = REFType::BitFieldMember;
      b.t.subType = sgn ? REFType::Integer : REFType::UnsignedInteger;
      b.t.subSize = len;
      b.t.offset = pos;
      c.m.push_back(b);
      pos += len;
      if (work(3) == 2)
        pos++;
    }
    c.seal();
    REFSubClassStorage[c.hash] = c.refl();
    return &c;
  }

  // a class made before, for one more member of it
  const Cls *known(unsigned depth) {
    for (auto &c : classes)
      if (c.shared && c.depth <= depth && work(2))
        return &c;
    return nullptr;
  }
  // kind and shape of one member, without its place
  Member make_member(unsigned depth, const Opt &o) {
    Member x;
    x.name = id("m");
    static const size_t sz[] = {4, 1, 2, 8};
    switch (work(11)) {
    case 0:
    case 10:
      x.kind = REFType::Integer;
      x.stride = sz[work(4)];
      break;
    case 1:
      x.kind = REFType::UnsignedInteger;
      x.stride = sz[work(4)];
      break;
    case 2:
      x.kind = REFType::FloatingPoint;
      x.stride = work(2) ? 8 : 4;
      break;
    case 3:
      x.kind = REFType::Bool;
      x.stride = 1;
      break;
    case 4:
      x.kind = REFType::Enum;
      x.stride = sz[work(4)];
      x.en = make_enum(false, x.stride);
      x.t.typeHash = x.en->hash;
      break;
    case 5:
      x.kind = REFType::EnumFlags;
      x.stride = sz[work(4)];
      x.en = make_enum(true, x.stride);
      x.t.typeHash = x.en->hash;
      break;
    case 6: {
      x.kind = REFType::Vector;
      static const REFType el[] = {REFType::FloatingPoint, REFType::Integer,
                                   REFType::UnsignedInteger};
      x.t.subType = el[work(3)];
      size_t es = x.t.subType == REFType::FloatingPoint ? (work(2) ? 8 : 4)
                                                        : sz[work(4)];
      x.t.subSize = es;
      x.t.numItems = 2 + work(3);
      x.stride = es * x.t.numItems;
      x.t.typeHash = JenHash((uint32)x.t.subType | (uint32)es << 8 |
                             (uint32)x.t.numItems << 16);
      break;
    }
    case 7:
      if (!o.strings)
        return make_member(depth, o);
      x.kind = REFType::String;
      x.stride = sizeof(std::string);
      if (o.cstrings && work(3) == 2) {
        x.kind = REFType::CString;
        x.stride = sizeof(const char *);
      }
      break;
    case 8:
      if (!o.bits)
        return make_member(depth, o);
      x.kind = REFType::BitFieldClass;
      x.stride = sz[work(4)];
      x.sub = make_bits(x.stride);
      x.t.typeHash = x.sub->hash;
      break;
    default:
      if (!depth || !o.classes)
        return make_member(depth, o);
      x.kind = REFType::Class;
      {
        Opt so = o;
        so.maxMembers = 5;
        so.nested = true;
        x.sub = work(4) == 3 ? known(depth - 1) : nullptr;
        if (!x.sub) {
          Cls *c = make_class(depth - 1, so);
          c->shared = c->size <= 255;
          x.sub = c;
        }
      }
      if (x.sub->size > 255)
        return make_member(0, o);
      x.stride = x.sub->size;
      x.t.typeHash = x.sub->hash;
    }
    x.array = work(3) == 2;
    if (x.array) {
      // offsets and counts are 16 bits
      x.count = work(10)  ? 1 + work(4)
                : work(5) ? 5 + work(std::min<size_t>(120, 3000 / x.stride))
                          : 1 + work(std::min<size_t>(900, 3000 / x.stride));
      if (x.kind == REFType::Vector) {
        x.t.subType = REFType::Vector;
      } else {
        x.t.subType = x.kind;
      }
      x.t.type = work(6) == 5 ? REFType::ArrayClass : REFType::Array;
      x.t.subSize = x.stride;
      x.t.numItems = x.count;
    } else {
      x.t.type = x.kind;
      if (x.kind != REFType::Vector) {
        x.t.subSize = x.kind == REFType::String || x.kind == REFType::CString
                          ? 0
                          : x.stride;
        x.t.numItems = x.kind == REFType::EnumFlags ? 1 : 0;
      }
    }
    if (work(3) == 2) {
      x.hasAlias = true;
      x.alias = id("alias");
    }
    if (work(3) == 2) {
      x.part1 = "some words " + id("d");
      if (huge && work(3) == 2)
        x.part1 += std::string(65000 + work(3000), 'y');
      if (work(2))
        x.part2 = id("unit ");
    }
    return x;
  }
  static size_t align_of(const Member &x) {
    switch (x.kind) {
    case REFType::String:
      return alignof(std::string);
    case REFType::Class:
      return x.sub->align;
    case REFType::Vector:
      return x.array ? 8 : x.t.subSize;
    default:
      return x.stride;
    }
  }
  static void place(Cls &c) {
    size_t at = 0, al = 1;
    for (auto &x : c.m) {
      size_t a = align_of(x);
      al = std::max(al, a);
      at = (at + a - 1) / a * a;
      x.t.offset = at;
      at += x.stride * x.count;
    }
    c.align = al;
    c.size = std::max<size_t>((at + al - 1) / al * al, 1);
  }
  Cls *make_class(unsigned depth, const Opt &o) {
    if (o.written && work(8) == 7)
      if (Cls *r = written(depth, o))
        return r;
    Cls c;
    c.name = id("Cls");
    c.hash = hash_of(c.name);
    c.names = work(5) != 4;
    c.ext = c.names && work(3) == 2;
    for (size_t n = work(12) == 0 ? 0 : 1 + work(o.maxMembers); n; n--)
      c.m.push_back(make_member(depth, o));
    for (auto &x : c.m)
      if (x.kind == REFType::Class)
        c.depth = std::max(c.depth, x.sub->depth + 1);
    place(c);
    classes.push_back(std::move(c));
    Cls &r = classes.back();
    r.seal();
    REFSubClassStorage[r.hash] = r.refl();
    return &r;
  }
};

inline std::string some_string(bool xml, bool big = false) {
  static const size_t len[] = {5, 0, 1, 15, 16, 40, 200, 3};
  std::string s(big && work(2) ? 65500 + work(6000) : len[work(8)], 0);
  uint64_t k = work(1000);
  for (size_t i = 0; i < s.size(); i++)
    s[i] = xml ? "abc XYZ<>&\"'09.,;/{}[]()=|-\xc3\xa4"[(k + i * 7) % 28]
               : (char)(k + i * 31);
  return s;
}

// An object of a class, with a guarded and patterned memory block.
struct Obj {
  const Cls *c;
  size_t cap;
  char *p, *base = nullptr;
  size_t region = 0;
  unsigned char pat;
  std::vector<bool> owned;

  explicit Obj(const Cls *c_, unsigned char pat_ = 0x5a) : c(c_), pat(pat_) {
    mem::NoFail nf;
    if (work(6) == 5) { // right in front of memory that must not be touched
      const size_t al = std::max<size_t>(c->align, 1);
      cap = (c->size + al - 1) / al * al;
      region = (cap + 4095) / 4096 * 4096 + 4096;
      base = (char *)mmap(nullptr, region, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (base == (char *)MAP_FAILED)
        fail("harness.mmap", "no memory for an object");
      mprotect(base + region - 4096, 4096, PROT_NONE);
      p = base + region - 4096 - cap;
    } else {
      cap = (c->size + 32 + 15) / 16 * 16;
      p = (char *)malloc(cap);
    }
    memset(p, pat, cap);
    owned.assign(cap, false);
    each(c, p, [&](const Member &x, char *at, const std::string &) {
      if (x.kind == REFType::String)
        new (at) std::string();
      for (size_t i = 0; i < x.stride; i++)
        owned[at - p + i] = true;
    });
  }
  ~Obj() {
    mem::NoFail nf;
    each(c, p, [&](const Member &x, char *at, const std::string &) {
      if (x.kind == REFType::String)
        ((std::string *)at)->~basic_string();
    });
    if (base)
      munmap(base, region);
    else
      free(p);
  }
  Obj(const Obj &) = delete;

  // leaf elements in order
  template <class F>
  static void each(const Cls *c, char *base, F f, const std::string &path = "") {
    for (auto &x : c->m)
      for (size_t i = 0; i < x.count; i++) {
        char *at = base + x.t.offset + i * x.stride;
        std::string n = path + x.name + (x.array ? "[" + std::to_string(i) + "]" : "");
        if (x.kind == REFType::Class)
          each(x.sub, at, f, n + ".");
        else
          f(x, at, n);
      }
  }
  // any bits
  void fill(bool big = false) {
    mem::NoFail nf;
    each(c, p, [&](const Member &x, char *at, const std::string &) {
      switch (x.kind) {
      case REFType::String:
        *(std::string *)at = some_string(false, big);
        break;
      case REFType::Bool:
        *at = work(2);
        break;
      case REFType::Vector: {
        _DecomposedVectorHash d = {x.t.typeHash};
        for (size_t i = 0; i < d.numItems; i++) {
          uint64_t v = draw_u64(WORK);
          memcpy(at + i * d.size, &v, d.size);
        }
        break;
      }
      default: {
        uint64_t v = draw_u64(WORK);
        memcpy(at, &v, x.stride);
      }
      }
    });
  }
  std::vector<std::pair<std::string, std::string>> dump() const {
    mem::NoFail nf;
    std::vector<std::pair<std::string, std::string>> r;
    each(c, p, [&](const Member &x, char *at, const std::string &n) {
      r.emplace_back(n, x.kind == REFType::String ? *(std::string *)at
                                                  : std::string(at, x.stride));
    });
    return r;
  }
  // bytes that belong to no member
  void check_padding(const char *when) const {
    for (size_t i = 0; i < cap; i++)
      if (!owned[i] && (unsigned char)p[i] != pat)
        fail("stray", "%s changed byte %zu of the object, which belongs to no "
                      "reflected member", when, i);
  }
  ReflectedInstance inst() const { return {c->refl(), p}; }
};

// The class as another version of the program has it: the same members in
// another order, some under a new name, with or without the old one as alias.
struct Evolved {
  const Cls *cls;
  std::vector<int> from; // member i comes from member from[i], -1: unknown
};

inline Evolved evolve(World &w, const Cls *c) {
  Cls n;
  n.name = c->name;
  n.hash = c->hash;
  n.names = n.ext = true;
  Evolved r;
  std::vector<int> order;
  for (size_t i = 0; i < c->m.size(); i++)
    order.insert(order.begin() + work(order.size() + 1), i);
  for (int i : order) {
    Member x = c->m[i];
    x.hasAlias = false;
    int src = i;
    switch (work(5)) {
    case 3: // renamed, the old name is an alias now
      x.alias = x.name;
      x.hasAlias = true;
      x.name = w.id("renamed");
      break;
    case 4: // another member altogether
      x.name = w.id("other");
      src = -1;
      break;
    }
    n.m.push_back(x);
    r.from.push_back(src);
  }
  World::place(n);
  w.classes.push_back(std::move(n));
  w.classes.back().seal();
  r.cls = &w.classes.back();
  return r;
}

inline void forget() {
  mem::NoFail nf;
  REFEnumStorage.clear();
  REFSubClassStorage.clear();
  // reflector.cpp's printer keeps its buffer: make it as large as it gets, so
  // that no run depends on the ones before it
  static Cls c;
  if (c.m.empty()) {
    c.name = "Warm";
    c.hash = hash_of(c.name);
    c.m.emplace_back();
    c.m[0].name = "m";
    c.m[0].t.type = REFType::Bool;
    c.m[0].t.subSize = 1;
    c.seal();
  }
  char b[16]{};
  ReflectedInstance in(c.refl(), b);
  ReflectorPureWrap rw(in);
  rw.SetReflectedValue(0, std::string(2000, ' '));
}

inline std::string hex(const std::string &s) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < s.size() && i < 24; i++) {
    snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
    r += b;
  }
  return r;
}
} // namespace rg

#include "reflwritten.hpp"
