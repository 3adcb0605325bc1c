// C29: members of reflected objects read and written by number, name and
// alias, as text and as numbers.
#include "refltext.hpp"
#include "datas/reflector.hpp"
#include <algorithm>
#include <cmath>

struct ReflectedInstanceFriend : ReflectedInstance {
  static const reflectorStatic *cls_of(const ReflectedInstance &i) {
    return static_cast<const ReflectedInstanceFriend &>(i).rfStatic;
  }
  static const void *addr_of(const ReflectedInstance &i) {
    return static_cast<const ReflectedInstanceFriend &>(i).constInstance;
  }
};

using namespace sim;
using namespace rg;

namespace {
struct Setup {
  Setup() { at_reset(forget); }
} g_setup;

using Err = Reflector::ErrorType;
const char *err_name(Err e) {
  static const char *n[] = {"None", "SignMismatch", "OutOfRange", "InvalidFormat",
                            "InvalidDestination", "EmptyInput", "ShortInput"};
  return (unsigned)e < 7 ? n[(unsigned)e] : "?";
}

// One element that text or a number can be put into.
struct Slot {
  REFType kind;
  size_t size;
  const EnumDef *en = nullptr;
  bool sgn = false;          // bit fields
  unsigned pos = 0, bits = 0;
};
uint64 low(unsigned bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

uint64 raw_get(const Slot &s, const char *at) {
  uint64 v = 0;
  if (s.kind == REFType::BitFieldMember) {
    memcpy(&v, at, s.size);
    return v >> s.pos & low(s.bits);
  }
  memcpy(&v, at, std::min<size_t>(s.size, 8));
  return v;
}
void raw_put(const Slot &s, char *at, uint64 v) {
  if (s.kind == REFType::BitFieldMember) {
    uint64 w = 0, m = low(s.bits) << s.pos;
    memcpy(&w, at, s.size);
    w = (w & ~m) | (v << s.pos & m);
    memcpy(at, &w, s.size);
  } else {
    memcpy(at, &v, s.size);
  }
}
int64_t sext(uint64 v, unsigned bits) {
  return (int64_t)(v << (64 - bits)) >> (64 - bits);
}

std::string elem_text(const Slot &s, const char *at) {
  uint64 v = raw_get(s, at);
  char b[64];
  switch (s.kind) {
  case REFType::Bool:
    return v ? "true" : "false";
  case REFType::Integer:
    return std::to_string((long long)sext(v, s.size * 8));
  case REFType::UnsignedInteger:
    return std::to_string((unsigned long long)v);
  case REFType::BitFieldMember:
    return s.sgn ? std::to_string((long long)sext(v, s.bits))
                 : std::to_string((unsigned long long)v);
  case REFType::FloatingPoint:
    if (s.size == 4) {
      float f;
      memcpy(&f, at, 4);
      snprintf(b, sizeof b, "%.6g", f);
    } else {
      double f;
      memcpy(&f, at, 8);
      snprintf(b, sizeof b, "%.13g", f);
    }
    return b;
  case REFType::Enum:
    for (size_t i = 0; i < s.en->values.size(); i++)
      if (!memcmp(&s.en->values[i], at, s.size))
        return s.en->names[i];
    return "";
  case REFType::EnumFlags: {
    std::string r;
    for (size_t i = 0; i < s.size * 8; i++)
      if (v >> i & 1)
        for (size_t k = 0; k < s.en->values.size(); k++)
          if (s.en->values[k] == i)
            r += (r.empty() ? "" : " | ") + s.en->names[k];
    return r.empty() ? "NULL" : r;
  }
  case REFType::CString:
    return (const char *)v ? (const char *)v : "";
  case REFType::String:
    return *(const std::string *)at;
  default:
    return "";
  }
}

// Text that is the same but for the digits of floating point numbers, and for
// flags without a name.
bool g_unnamed; // flags without a name may be set
bool alike(std::string a, std::string b) {
  if (a == b)
    return true;
  static const char *const gaps[][2] = {{"|  ", " "}, {"| |", "|"}, {"| ,", ","},
                                        {"| }", "}"}, {"| )", ")"}, {"  ", " "},
                                        {" ,", ","},  {" }", "}"},  {" )", ")"}};
  for (auto t : {&a, &b}) {
    if (!g_unnamed)
      break;
    for (auto &g : gaps)
      for (size_t p; (p = t->find(g[0])) != t->npos;)
        t->replace(p, strlen(g[0]), g[1]);
    while (!t->empty() && strchr("| ", t->back()))
      t->pop_back();
  }
  if (a == b)
    return true;
  auto toks = [](const std::string &s) {
    std::vector<std::string> r(1);
    for (char c : s)
      if (strchr("{}[](), ", c)) {
        r.emplace_back(1, c);
        r.emplace_back();
      } else {
        r.back() += c;
      }
    return r;
  };
  auto x = toks(a), y = toks(b);
  if (x.size() != y.size())
    return false;
  for (size_t i = 0; i < x.size(); i++) {
    if (x[i] == y[i])
      continue;
    char *e, *g;
    double p = strtod(x[i].c_str(), &e), q = strtod(y[i].c_str(), &g);
    if (*e || *g || e == x[i].c_str() || g == y[i].c_str() ||
        !(std::fabs(p - q) <= 2e-6 * std::fabs(q)))
      return false;
  }
  return true;
}

// Input for one element, with what it ought to do.
struct In {
  std::string text;
  Err err = Err::None;
  bool any = false;      // any error code but None, and
  bool writes = true;
  uint64 v = 0;          // what gets written
  std::string s;
  bool loose = false;    // the element may become anything
  int tiny = 0;          // or zero or the least number of this sign
};
std::string digits(uint64 v, bool neg, bool hex) {
  char b[40];
  snprintf(b, sizeof b, hex ? "%s0x%llx" : "%s%llu", neg ? "-" : "", (unsigned long long)v);
  return b;
}
uint64 some_magnitude() {
  switch (work(5)) {
  case 0:
    return work(130);
  case 1:
    return 1ull << work(64);
  case 2:
    return (1ull << work(64)) - 1;
  case 3:
    return draw_u64(WORK) >> work(64);
  default:
    return work(70000);
  }
}
// Almost the name of a value.
std::string near_name(const EnumDef &en, const std::string &other) {
  if (en.names.empty())
    return other;
  std::string n = en.names[work(en.names.size())];
  switch (work(5)) {
  case 0:
    n.pop_back();
    break;
  case 1:
    n.erase(0, 1);
    break;
  case 2:
    n += "x";
    break;
  case 3:
    n = "E" + n;
    break;
  default:
    n[0] ^= 0x20;
  }
  return n.empty() || std::count(en.names.begin(), en.names.end(), n) ? other : n;
}
// valid: input that sets exactly what it says (for use within arrays)
In make_in(const Slot &s, bool valid) {
  mem::NoFail nf;
  In r;
  bool junk = !valid && work(8) == 7;
  static const char *bad[] = {"xyz", "-", "one", "", "   ", "+", ".", "#5"};
  const char *b = bad[work(8)];
  switch (s.kind) {
  case REFType::Bool: {
    if (junk) {
      static const char *near[] = {"fals", "falsy", "tru", "truf", "t", "f", "no",
                                   "yes", "ttrue", " x", "0x", "FALS", "Tru"};
      r.text = work(2) ? near[work(13)] : b;
      r.err = Err::InvalidFormat;
      r.v = 0;
      return r;
    }
    r.v = work(2);
    r.text = r.v ? "true" : "false";
    if (work(3) == 2)
      for (auto &c : r.text)
        if (work(2))
          c = toupper(c);
    break;
  }
  case REFType::Integer:
  case REFType::UnsignedInteger:
  case REFType::BitFieldMember: {
    bool bf = s.kind == REFType::BitFieldMember;
    unsigned bits = bf ? s.bits : s.size * 8;
    bool sgn = bf ? s.sgn : s.kind == REFType::Integer;
    if (junk) {
      r.text = b;
      r.err = Err::InvalidFormat;
      r.writes = false;
      r.loose = bf;
      return r;
    }
    bool neg = sgn ? work(2) : !valid && work(6) == 5;
    bool hex = work(4) == 3;
    uint64 m = some_magnitude();
    if (neg && !sgn && !m)
      m = 1;
    if (neg && !sgn && m >> 63)
      m >>= 1;
    uint64 max = sgn ? low(bits - 1) + neg : low(bits);
    if (neg && !sgn) {
      r.err = Err::SignMismatch;
      r.v = -m;
      if (bf) // taken modulo or clamped
        r.any = r.loose = true;
    } else if (m > max) {
      if (valid) {
        m %= max ? max : 1;
      } else {
        r.err = Err::OutOfRange;
      }
      r.v = r.err == Err::OutOfRange ? (neg ? -max : max) : (neg ? -m : m);
    } else {
      r.v = neg ? -m : m;
    }
    r.text = digits(m, neg, hex);
    if (!valid && work(12) == 11 && !(neg && !sgn)) {
      r.text = neg ? "-99999999999999999999" : "99999999999999999999";
      r.err = Err::OutOfRange;
      r.v = neg ? -max : max;
    }
    break;
  }
  case REFType::FloatingPoint: {
    if (junk) {
      r.text = *b == '.' ? "x" : b;
      r.err = Err::InvalidFormat;
      r.writes = false;
      return r;
    }
    char buf[64];
    double d;
    if (s.size == 4) {
      float f = some_float<float>("%.6g");
      d = f;
      memcpy(&r.v, &f, 4);
      snprintf(buf, sizeof buf, "%.9g", d);
    } else {
      d = some_float<double>("%.13g");
      memcpy(&r.v, &d, 8);
      snprintf(buf, sizeof buf, "%.17g", d);
    }
    r.text = buf;
    if (!valid && work(8) == 7) {
      bool neg = work(2), big = work(2);
      static const char *least[] = {"1e-999", "1e-44", "1e-310", "4e-320"};
      r.text = std::string(neg ? "-" : "") +
               (big ? "1e999" : least[s.size == 4 ? work(4) : 2 * work(2)]);
      if (!big)
        r.tiny = neg ? -1 : 1;
      r.err = Err::OutOfRange;
      if (s.size == 4) {
        float f = big ? std::numeric_limits<float>::max() : std::numeric_limits<float>::min();
        f = neg ? -f : f;
        memcpy(&r.v, &f, 4);
        r.loose = !big; // nothing or the least number
      } else {
        double f = big ? std::numeric_limits<double>::max() : std::numeric_limits<double>::min();
        f = neg ? -f : f;
        memcpy(&r.v, &f, 8);
        r.loose = !big;
      }
    }
    break;
  }
  case REFType::Enum: {
    if (junk) {
      r.text = work(2) ? near_name(*s.en, b) : b;
      r.any = true;
      r.writes = false;
      return r;
    }
    size_t i = work(s.en->names.size());
    r.text = s.en->names[i];
    r.v = s.en->values[i];
    break;
  }
  case REFType::EnumFlags: {
    if (junk) {
      r.text = *b == ' ' || !*b ? "zz" : b;
      if (work(2))
        r.text = near_name(*s.en, r.text);
      r.any = true;
      r.v = 0;
      return r;
    }
    static const char *sep[] = {" | ", "|", " |", "|  "};
    for (size_t i = 0; i < s.en->values.size(); i++)
      if (s.en->values[i] < s.size * 8 && work(2)) {
        r.v |= 1ull << s.en->values[i];
        r.text += (r.text.empty() ? "" : sep[work(4)]) + s.en->names[i];
      }
    if (!r.text.empty() && work(8) == 7) // named again
      for (size_t i = 0; i < s.en->values.size(); i++)
        if (s.en->values[i] < s.size * 8 && r.v >> s.en->values[i] & 1 &&
            work(2))
          r.text += sep[work(4)] + s.en->names[i];
    if (r.text.empty())
      r.text = "NULL";
    break;
  }
  case REFType::String:
    r.s = r.text = some_text(valid);
    return r;
  case REFType::CString:
    r.text = "abc";
    r.err = Err::InvalidDestination;
    r.writes = false;
    return r;
  default:
    r.text = "5";
    r.any = true;
    r.writes = false;
    return r;
  }
  if (work(6) == 5)
    for (size_t n = 1 + work(3); n; n--)
      r.text.insert(0, 1, work(2) ? ' ' : '\t');
  if (work(6) == 5 && (s.kind == REFType::Enum || s.kind == REFType::Bool))
    for (size_t n = 1 + work(3); n; n--)
      r.text += work(2) ? ' ' : '\t';
  return r;
}

void apply(const Slot &s, char *at, const In &in) {
  if (!in.writes)
    return;
  if (s.kind == REFType::String)
    *(std::string *)at = in.s;
  else
    raw_put(s, at, in.v);
}

// An object or nested object and its twin that shows what is expected.
struct Place {
  const Cls *c;
  char *p, *want;
  ReflectedInstance inst;
};

Slot slot_of(const Cls *c, const Member &x) {
  Slot s;
  s.kind = x.kind;
  s.size = x.stride;
  s.en = x.en;
  if (x.kind == REFType::BitFieldMember) {
    s.size = c->size;
    s.sgn = x.t.subType == REFType::Integer;
    s.pos = x.t.offset;
    s.bits = x.t.subSize;
  }
  return s;
}
Slot element_of(const Member &x) {
  _DecomposedVectorHash d = {x.t.typeHash};
  Slot s;
  s.kind = d.type;
  s.size = d.size;
  return s;
}
size_t elements_of(const Member &x) {
  _DecomposedVectorHash d = {x.t.typeHash};
  return d.numItems;
}
char *addr(const Cls *c, char *base, const Member &x, size_t i = 0) {
  return x.kind == REFType::BitFieldMember ? base
                                           : base + x.t.offset + i * x.stride;
}

std::string item_text(const Cls *c, const Member &x, const char *at) {
  if (x.kind == REFType::Class || x.kind == REFType::BitFieldClass)
    return "SUBCLASS_TYPE";
  if (x.kind != REFType::Vector)
    return elem_text(slot_of(c, x), at);
  std::string r = "[";
  Slot e = element_of(x);
  for (size_t k = 0; k < elements_of(x); k++)
    r += (k ? ", " : "") + elem_text(e, at + k * e.size);
  return r + "]";
}
std::string whole_text(const Cls *c, const Member &x, char *base) {
  if (!x.array)
    return item_text(c, x, addr(c, base, x));
  const bool cls = x.t.type == REFType::ArrayClass;
  std::string r = cls ? "(" : "{";
  for (size_t i = 0; i < x.count; i++)
    r += (i ? ", " : "") + item_text(c, x, addr(c, base, x, i));
  return r + (cls ? ")" : "}");
}

const size_t none = ~(size_t)0;

void c29() {
  World w;
  Opt o;
  o.cstrings = true;
  o.maxMembers = 7;
  const Cls *top = w.make_class(2, o);
  Obj obj(top), ref(top);
  fill_text(obj);
  g_unnamed = work(4) == 3;
  if (g_unnamed) // values that have no name
    Obj::each(top, obj.p, [&](const Member &x, char *at, const std::string &) {
      uint64 v = draw_u64(WORK);
      if ((x.kind == REFType::EnumFlags || x.kind == REFType::Enum) && work(2))
        memcpy(at, &v, x.stride);
    });
  auto sync = [&](char *to, char *from, const Cls *c) {
    std::vector<std::pair<const Member *, char *>> a, b;
    Obj::each(c, to, [&](const Member &x, char *at, const std::string &) { a.emplace_back(&x, at); });
    Obj::each(c, from, [&](const Member &x, char *at, const std::string &) { b.emplace_back(&x, at); });
    for (size_t i = 0; i < a.size(); i++)
      if (a[i].first->kind == REFType::String)
        *(std::string *)a[i].second = *(std::string *)b[i].second;
      else
        memcpy(a[i].second, b[i].second, a[i].first->stride);
  };
  sync(ref.p, obj.p, top);
  ReflectedInstance root = obj.inst();

  for (size_t steps = 1 + work(30); steps; steps--) {
    // ---- where
    Place at{top, obj.p, ref.p, root};
    while (work(3) == 2 && at.c->m.size()) {
      auto &x = at.c->m[work(at.c->m.size())];
      if (!x.sub)
        break;
      size_t i = x.array ? work(x.count) : 0;
      ReflectorPureWrap rw(at.inst);
      ReflectedInstance sub = work(2) ? rw.GetReflectedSubClass(x.t.ID, i)
                                      : rw.GetReflectedSubClass(hash_of(x.name), i);
      size_t there = x.t.offset + i * x.stride;
      SIM_CHECK(ReflectedInstanceFriend::cls_of(sub) == x.sub->refl() &&
                    ReflectedInstanceFriend::addr_of(sub) == at.p + there,
                "nested", "the nested object %zu of %s is not found", i, x.name.c_str());
      size_t off = x.t.offset + i * x.stride;
      at = Place{x.sub, at.p + off, at.want + off, sub};
    }
    const Cls *c = at.c;
    ReflectorPureWrap rw(at.inst);
    const ReflectorPureWrap &crw = rw;
    // ---- which member, and how it is named
    size_t id = c->m.size() && work(12) ? work(c->m.size()) : none;
    const Member *x = id == none ? nullptr : &c->m[id];
    unsigned how = work(3); // 0 number, 1 name, 2 alias
    size_t num = x ? id : c->m.size() + work(2) * 250;
    std::string name = x ? how == 2 && c->ext && x->hasAlias ? x->alias : x->name
                         : "unknown";
    // names are given as text or as the hash they are stored under
    JenHash hash = work(2) ? JenHash(es::string_view(name.data(), name.size()))
                           : hash_of(name);
    // ---- which item
    unsigned depth = work(4); // 0, 1: whole; 2: item; 3: item and element
    size_t items = !x ? 0 : x->array ? x->count : x->kind == REFType::Vector ? elements_of(*x) : 0;
    size_t item = items && work(5) ? work(items) : items + work(3) * (1 + work(70000));
    if (x && x->kind == REFType::EnumFlags && !x->array && work(4))
      item = work(x->stride * 8 + 2);
    if (work(40) == 39)
      item = (size_t)draw_u64(WORK) | 1ull << 63;
    size_t els = x && x->array && x->kind == REFType::Vector ? elements_of(*x) : 0;
    size_t el = els && work(5) ? work(els) : els + work(3) * (1 + work(70000));
    if (x && x->kind == REFType::EnumFlags && x->array && work(4))
      el = work(x->stride * 8 + 2);
    bool fault = draw(FAULT, 5) == 4;
    auto arm = [&] {
      if (fault)
        mem::fail_at(1 + draw(FAULT, 8));
    };
    unsigned op = work(10);
    std::string what;
    bool threw = false;
    auto attempt = [&](auto fn) {
      threw = false;
      arm();
      try {
        fn();
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      bool fired = fault && mem::fired();
      mem::off();
      SIM_CHECK(!threw || fired, "report", "out of memory without a reason");
      if (threw || fired) { // and again
        fault = false;
        return false;
      }
      return true;
    };
    auto untouched = [&](const Member *but) {
      mem::NoFail nf;
      // the member that could not be set with memory running out may be old,
      // new or partly new
      if (but) {
        Cls one;
        one.m.push_back(*but);
        if (but->kind == REFType::BitFieldMember) {
          Slot s = slot_of(c, *but);
          raw_put(s, at.want, raw_get(s, at.p));
        } else {
          sync(at.want, at.p, &one);
        }
      }
      auto a = obj.dump(), b = ref.dump();
      for (size_t i = 0; i < a.size(); i++)
        SIM_CHECK(a[i].second == b[i].second, "value",
                  "after %s %s is %s, expected %s", what.c_str(),
                  a[i].first.c_str(), hex(a[i].second).c_str(),
                  hex(b[i].second).c_str());
      obj.check_padding(what.c_str());
    };

    if (op < 3) { // ---- read
      std::string want, got;
      {
        mem::NoFail nf;
        if (x && depth < 2)
          want = whole_text(c, *x, at.want);
        else if (x && depth == 2) {
          if (item < items) {
            if (x->array)
              want = item_text(c, *x, addr(c, at.want, *x, item));
            else
              want = elem_text(element_of(*x), addr(c, at.want, *x) + item * element_of(*x).size);
          } else if (x->kind == REFType::EnumFlags && !x->array && item < x->stride * 8) {
            want = raw_get(slot_of(c, *x), addr(c, at.want, *x)) >> item & 1 ? "true" : "false";
          }
        } else if (x && x->array) {
          if (item < items && x->kind == REFType::Vector && el < els)
            want = elem_text(element_of(*x), addr(c, at.want, *x, item) + el * element_of(*x).size);
          else if (item < items && x->kind == REFType::EnumFlags && el < x->stride * 8)
            want = raw_get(slot_of(c, *x), addr(c, at.want, *x, item)) >> el & 1 ? "true" : "false";
        }
        what = "reading " + name;
      }
      auto get = [&] {
        got = depth < 2   ? how ? crw.GetReflectedValue(hash) : crw.GetReflectedValue(num)
              : depth == 2 ? how ? crw.GetReflectedValue(hash, item)
                                 : crw.GetReflectedValue(num, item)
                           : how ? crw.GetReflectedValue(hash, item, el)
                                 : crw.GetReflectedValue(num, item, el);
      };
      bool again = !attempt(get);
      if (again && !threw)
        SIM_CHECK(alike(got, want), "value",
                  "with an allocation failing %s is read as \"%.60s\", it is \"%.60s\"",
                  name.c_str(), got.c_str(), want.c_str());
      if (again)
        attempt(get);
      ev("get %s[%u] %zu %zu: %.200s", name.c_str(), depth, item, el, got.c_str());
      SIM_CHECK(alike(got, want), "value", "%s is read as \"%.60s\", it is \"%.60s\"",
                name.c_str(), got.c_str(), want.c_str());
      untouched(nullptr);
    } else if (op == 3) { // ---- pair
      Reflector::KVPairFormat f;
      f.aliasName = work(2);
      f.formatValue = work(2);
      Reflector::KVPair kv;
      auto get = [&] {
        kv = how ? crw.GetReflectedPair(hash, f) : crw.GetReflectedPair(num, f);
      };
      if (!attempt(get))
        attempt(get);
      mem::NoFail nf;
      std::string want, n;
      if (x) {
        n = !c->names ? "" : f.aliasName && c->ext && x->hasAlias ? x->alias : x->name;
        want = whole_text(c, *x, at.want);
        if (f.formatValue && c->ext && x->part1.size())
          want = x->part1 + " " + want + (x->part2.size() ? " " + x->part2 : "");
      }
      ev("pair %s", name.c_str());
      SIM_CHECK(kv.name == es::string_view(n.data(), n.size()), "name",
                "the pair of %s is named \"%.60s\"", name.c_str(), kv.name.to_string().c_str());
      SIM_CHECK(alike(kv.value, want), "value", "the pair of %s is \"%.60s\", expected \"%.60s\"",
                name.c_str(), kv.value.c_str(), want.c_str());
      what = "reading a pair";
      untouched(nullptr);
    } else if (op == 4) { // ---- kinds
      bool arr = how ? rw.IsArray(hash) : rw.IsArray(num);
      bool sub = how ? rw.IsReflectedSubClass(hash) : rw.IsReflectedSubClass(num);
      SIM_CHECK(arr == (x && x->array), "kind", "%s: IsArray says %d", name.c_str(), arr);
      SIM_CHECK(sub == (x && x->sub), "kind", "%s: IsReflectedSubClass says %d", name.c_str(), sub);
      SIM_CHECK(rw.GetNumReflectedValues() == c->m.size() && rw.UseNames() == c->names,
                "kind", "a class does not have its members or names");
      if (c->names)
        SIM_CHECK(rw.GetClassName() == es::string_view(c->name.data(), c->name.size()),
                  "kind", "a class is not named as it should be");
      // nested objects that do not exist
      size_t n = !x ? 0 : x->array ? x->count : 1;
      size_t i = x && x->sub && work(2) ? work(n) : n + work(3) * (1 + work(70000));
      bool have = x && x->sub && i < n;
      ReflectedInstance a = how ? rw.GetReflectedSubClass(hash, i) : rw.GetReflectedSubClass(num, i);
      ReflectedInstance b = how ? crw.GetReflectedSubClass(hash, i) : crw.GetReflectedSubClass(num, i);
      SIM_CHECK(!ReflectedInstanceFriend::cls_of(a) == !have &&
                    !ReflectedInstanceFriend::cls_of(b) == !have, "nested",
                "%s: nested object %zu is %s", name.c_str(), i, have ? "not found" : "made up");
      ev("kind %s", name.c_str());
    } else if (op < 6) { // ---- numbers
      unsigned type = work(3);
      uint64 v = work(2) ? some_magnitude() : draw_u64(WORK);
      double d = some_float<double>("%.13g");
      if (work(3) == 2)
        d = (double)some_float<float>("%.6g");
      size_t sub = depth < 2 ? 0 : item;
      Slot s{};
      char *to = nullptr;
      Err want = Err::InvalidDestination;
      bool anyErr = true;
      if (x && x->kind != REFType::BitFieldMember) {
        bool many = x->array || x->kind == REFType::Vector;
        if (many ? sub < items : !sub) {
          if (x->array) {
            s = slot_of(c, *x);
            to = addr(c, at.want, *x, sub);
          } else if (many) {
            s = element_of(*x);
            to = addr(c, at.want, *x) + sub * s.size;
          } else {
            s = slot_of(c, *x);
            to = addr(c, at.want, *x);
          }
          REFType need = type == 0 ? REFType::Integer : type == 1 ? REFType::UnsignedInteger : REFType::FloatingPoint;
          if (s.kind == need) {
            want = Err::None;
            anyErr = false;
            if (type < 2)
              raw_put(s, to, v);
            else if (s.size == 4) {
              float f = (float)d;
              memcpy(to, &f, 4);
            } else {
              memcpy(to, &d, 8);
            }
          }
        }
      }
      Err got;
      if (type == 0)
        got = how ? rw.SetReflectedValueInt(hash, (int64)v, sub) : rw.SetReflectedValueInt(num, (int64)v, sub);
      else if (type == 1)
        got = how ? rw.SetReflectedValueUInt(hash, v, sub) : rw.SetReflectedValueUInt(num, v, sub);
      else
        got = how ? rw.SetReflectedValueFloat(hash, d, sub) : rw.SetReflectedValueFloat(num, d, sub);
      what = "setting " + name + " to a number";
      ev("number %u into %s %zu: %s", type, name.c_str(), sub, err_name(got));
      SIM_CHECK(anyErr ? got != Err::None : got == want, "report",
                "setting item %zu of %s to a number gave %s, expected %s", sub,
                name.c_str(), err_name(got), anyErr ? "an error" : err_name(want));
      untouched(nullptr);
    } else { // ---- text
      In in;
      bool whole = depth < 2;
      std::vector<std::pair<char *, std::pair<Slot, In>>> parts;
      Err want = Err::None;
      bool any = false, loose = false;
      {
        mem::NoFail nf;
        if (!x || (depth == 2 && item >= items) ||
            (depth == 3 && !(els && item < items && el < els))) {
          in.text = "1";
          any = true;
        } else if (x->sub) {
          in.text = "{1}"; // nested objects have no text form
          any = true;
        } else if (depth == 3) {
          Slot s = element_of(*x);
          in = make_in(s, false);
          parts.push_back({addr(c, at.want, *x, item) + el * s.size, {s, in}});
        } else if (x->array ? depth == 2 && x->kind != REFType::Vector
                            : whole ? x->kind != REFType::Vector : true) {
          Slot s = x->kind == REFType::Vector ? element_of(*x) : slot_of(c, *x);
          in = make_in(s, false);
          char *to = x->array ? addr(c, at.want, *x, item)
                     : x->kind == REFType::Vector ? addr(c, at.want, *x) + item * s.size
                                                  : addr(c, at.want, *x);
          parts.push_back({to, {s, in}});
        } else {
          // all items or elements in one text
          using Part = std::pair<char *, std::pair<Slot, In>>;
          std::vector<std::pair<std::string, std::vector<Part>>> list;
          // one of the items may be no value
          bool bad = work(4) == 3;
          const bool strings = x->kind == REFType::String;
          auto item_in = [&](const Slot &s) {
            if (!bad || strings || work(3) != 2)
              return make_in(s, true);
            In e = make_in(s, false);
            if (e.text.find_first_not_of(" \t\r\n") == std::string::npos)
              return make_in(s, true); // left out, see below
            return e;
          };
          auto elements = [&](char *to) {
            std::vector<std::pair<std::string, std::vector<Part>>> r;
            Slot s = element_of(*x);
            for (size_t k = 0; k < elements_of(*x); k++) {
              In e = item_in(s);
              r.push_back({e.text, {{to + k * s.size, {s, e}}}});
            }
            return r;
          };
          auto join = [&](const decltype(list) &l) {
            std::string t;
            for (auto &e : l)
              t += (&e == &l[0] ? "" : work(3) || e.first.empty() ? ", " : ",") + e.first;
            return t;
          };
          const char *brace = "[]";
          if (!x->array || depth == 2) {
            list = elements(x->array ? addr(c, at.want, *x, item) : addr(c, at.want, *x));
          } else {
            brace = x->t.type == REFType::ArrayClass ? "()" : "{}";
            for (size_t i = 0; i < x->count; i++) {
              char *to = addr(c, at.want, *x, i);
              if (x->kind == REFType::Vector) {
                auto l = elements(to);
                list.push_back({"[" + join(l) + "]", {}});
                for (auto &e : l)
                  list.back().second.push_back(e.second[0]);
              } else {
                In e = item_in(slot_of(c, *x));
                list.push_back({e.text, {{to, {slot_of(c, *x), e}}}});
              }
            }
          }
          std::string tail;
          size_t takes = list.size();
          unsigned odd = work(14);
          if (odd == 1 && takes > 1 && !(strings && list[0].first.empty())) { // the last ones stay as they are
            takes = 1 + work(takes - 1);
            list.resize(takes);
          } else if (odd == 2 && !strings) { // one is left out
            takes = work(takes);
            list[takes].first = work(2) ? " " : "   ";
            want = Err::ShortInput;
          } else if (odd == 3) { // one too many
            list.push_back({strings ? "x" : list[0].first, {}});
            want = Err::OutOfRange;
          } else if (odd == 4) {
            tail = ",";
          } else if (odd == 5 && strings) { // braces that do not end
            list.back().first += work(2) ? "(b" : "\"";
            any = loose = true;
          }
          for (size_t i = 0; i < takes; i++)
            parts.insert(parts.end(), list[i].second.begin(), list[i].second.end());
          for (auto &p : parts) {
            any = any || p.second.second.err != Err::None || p.second.second.any;
            loose = loose || p.second.second.loose;
          }
          in.text = brace[0] + join(list) + tail + brace[1];
          in.err = want;
          switch (work(10)) {
          case 8:
            in.text = "  " + in.text;
            break;
          case 9: { // no list
            static const char *v[] = {"", "1", "]", "}", "]1[", "}1{", "true", "[]", "{}", "()", ")1("};
            in.text = v[strings && x->count == 1 ? 0 : work(11)];
            parts.clear();
            any = true;
          }
          }
        }
        if (parts.size() == 1 && !any) {
          want = in.err;
          any = in.any;
          loose = loose || in.loose;
        }
        what = "setting " + name + " to \"" + in.text.substr(0, 60) + "\"";
      }
      Err got = Err::None;
      es::string_view text(in.text.data(), in.text.size());
      auto set = [&] {
        got = whole        ? how ? rw.SetReflectedValue(hash, text) : rw.SetReflectedValue(num, text)
              : depth == 2 ? how ? rw.SetReflectedValue(hash, text, item)
                                 : rw.SetReflectedValue(num, text, item)
                           : how ? rw.SetReflectedValue(hash, text, item, el)
                                 : rw.SetReflectedValue(num, text, item, el);
      };
      if (!attempt(set)) {
        untouched(x);
        attempt(set);
      }
      ev("%s: %s", what.c_str(), err_name(got));
      if (any)
        SIM_CHECK(got != Err::None, "report", "%s was accepted", what.c_str());
      else
        SIM_CHECK(got == want, "report", "%s gave %s, expected %s", what.c_str(),
                  err_name(got), err_name(want));
      for (auto &p : parts)
        apply(p.second.first, p.first, p.second.second);
      untouched(loose ? x : nullptr);
      if (in.tiny && parts.size() == 1 && parts[0].second.first.kind == REFType::FloatingPoint) {
        double v, least;
        float f;
        if (parts[0].second.first.size == 4) {
          memcpy(&f, parts[0].first, 4);
          v = f;
          least = std::numeric_limits<float>::min();
        } else {
          memcpy(&v, parts[0].first, 8);
          least = std::numeric_limits<double>::min();
        }
        SIM_CHECK(v == 0 || (std::fabs(v) <= least && (v < 0) == (in.tiny < 0)),
                  "value", "%s made it %g", what.c_str(), v);
      }
    }
  }
}
SIM_PROP_BATCH("C29", c29);
} // namespace
