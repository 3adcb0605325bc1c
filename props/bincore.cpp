// C10: readers and writers against a model of positions and bytes;
// C11: readers on truncated and failing media; C12: variable length integers.
#include "../sim/core.hpp"
#include "../sim/dev.hpp"
#include "../sim/mem.hpp"
#include "datas/base_128.hpp"
#include "datas/bitfield.hpp"
#include "datas/flags.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/vectors.hpp"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

using namespace sim;

namespace {

// ------------------------------------------------------- user side types

struct Swappable { // plain class with its own SwapEndian
  uint16 a;
  uint16 b;
  uint32 c;
  void SwapEndian() {
    FByteswapper(a);
    FByteswapper(b);
    FByteswapper(c);
  }
};

struct Custom { // class with its own stream form
  uint32 id = 0;
  std::string text;
  void Read(BinReaderRef rd) {
    rd.Read(id);
    rd.ReadContainer<uint16>(text);
  }
  void Write(BinWritterRef wr) const {
    wr.Write(id);
    wr.WriteContainerWCount<uint16>(text);
  }
};

void app(std::string &s, uint64_t v, int n, bool swap) {
  for (int i = 0; i < n; i++)
    s.push_back((char)(v >> (8 * (swap ? n - 1 - i : i))));
}
uint64_t dec(const std::string &s, size_t at, int n, bool swap) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++)
    v |= (uint64_t)(unsigned char)s[at + (swap ? n - 1 - i : i)] << (8 * i);
  return v;
}
std::string bytes(size_t n) {
  std::string r;
  uint64_t k = work(256);
  for (size_t i = 0; i < n; i++)
    r.push_back((char)(k + i * 37 + (i >> 3)));
  return r;
}
size_t small() {
  static const size_t m[] = {3, 9, 40, 200};
  return work(m[work(4)]);
}

// The model of a stream and of the references onto it
struct Model {
  std::string data;
  uint64_t pos = 0;
  uint64_t base = 0; // where the stream's data begins; all else counts from there
  void put(const std::string &b) {
    if (b.empty())
      return;
    if (pos + b.size() > data.size())
      data.resize(pos + b.size(), 0);
    data.replace(pos, b.size(), b);
    pos += b.size();
  }
};
struct RefModel {
  uint64_t origin = 0, save = 0;
  bool swap = false;
};

template <class R> void check_pos(R &r, RefModel &rm, Model &m, const char *op) {
  uint64_t t = r.Tell();
  SIM_CHECK(t == m.pos - rm.origin, "position",
            "after %s Tell() is %lld, the model says %lld (absolute %llu, origin %llu)",
            op, (long long)t, (long long)(m.pos - rm.origin),
            (unsigned long long)m.pos, (unsigned long long)rm.origin);
}

// Positioning shared by readers and writers. limit: highest position allowed
template <class R>
void navigate(R &r, RefModel &rm, Model &m, uint64_t limit, bool writer) {
  switch (work(12)) {
  case 0: {
    uint64_t to = work(limit + 1);
    if ((int64_t)to < (int64_t)rm.origin)
      to = rm.origin;
    if (to > limit)
      return;
    ev("Seek %llu", (unsigned long long)(to - rm.origin));
    r.Seek(to - rm.origin);
    m.pos = to;
    break;
  }
  case 1: {
    uint64_t to = work(limit + 1);
    ev("Seek cur %lld", (long long)(to - m.pos));
    r.Seek(to - m.pos, std::ios_base::cur);
    m.pos = to;
    break;
  }
  case 2: {
    uint64_t back = work(m.data.size() + 1);
    ev("Seek end -%llu", (unsigned long long)back);
    r.Seek(-(int64_t)back, std::ios_base::end);
    m.pos = m.data.size() - back;
    break;
  }
  case 3: {
    if (writer) {
      int n = work(2) ? (int)small() : -(int)work(m.pos + 1);
      if (m.pos + n > limit)
        return;
      ev("Skip %d", n);
      r.Skip(n);
      if (n > 0)
        m.put(std::string(n, 0));
      else
        m.pos += n;
    } else {
      int64_t n = (int64_t)work(limit + 1) - (int64_t)m.pos;
      ev("Skip %d", (int)n);
      r.Skip((int)n);
      m.pos += n;
    }
    break;
  }
  case 4:
    if (m.pos + 8 > limit)
      return;
    ev("Skip<uint64>");
    r.template Skip<uint64>();
    if (writer)
      m.put(std::string(8, 0));
    else
      m.pos += 8;
    break;
  case 5:
    ev("Push");
    r.Push();
    rm.save = m.pos;
    break;
  case 6:
    ev("Pop");
    r.Pop();
    m.pos = rm.save;
    break;
  case 7: {
    uint64_t o = work(limit + 1);
    bool seek = work(2);
    if (!seek && o > m.pos)
      return;
    ev("SetRelativeOrigin %llu %d", (unsigned long long)o, seek);
    r.SetRelativeOrigin(o + m.base, seek);
    rm.origin = o;
    if (seek)
      m.pos = o;
    break;
  }
  case 8: {
    bool seek = work(2);
    ev("ResetRelativeOrigin %d", seek);
    r.ResetRelativeOrigin(seek);
    rm.origin = -m.base;
    if (seek)
      m.pos = -m.base;
    if (seek && m.base) { // nothing lies there
      check_pos(r, rm, m, "ResetRelativeOrigin");
      r.Seek(m.base);
      m.pos = 0;
    }
    break;
  }
  case 9: {
    int al = 1 << (work(12) == 11 ? 7 + work(5) : work(7));
    if ((int64_t)m.pos < (int64_t)rm.origin)
      return;
    uint64_t pad = (al - (m.pos - rm.origin) % al) % al;
    if (m.pos + pad > limit)
      return;
    ev("ApplyPadding %d", al);
    r.ApplyPadding(al);
    if (writer)
      m.put(std::string(pad, 0));
    else
      m.pos += pad;
    break;
  }
  case 10: {
    if ((int64_t)rm.origin > (int64_t)m.data.size())
      return;
    ev("GetSize");
    uint64_t s = r.GetSize();
    SIM_CHECK(s == m.data.size() - rm.origin, "size",
              "GetSize() is %llu, %llu bytes lie behind the origin",
              (unsigned long long)s,
              (unsigned long long)(m.data.size() - rm.origin));
    break;
  }
  case 11: {
    rm.swap = work(2);
    ev("SwapEndian %d", rm.swap);
    r.SwapEndian(rm.swap);
    SIM_CHECK(r.SwappedEndian() == rm.swap, "endian",
              "SwappedEndian() does not tell the endianness set");
    break;
  }
  }
}

// ---- the library's own value types and classes that swap themselves
struct Counted { // which bytes hold the count depends on the direction
  uint16 n = 0;
  uint16 v[3] = {};
  void SwapEndian(bool out) {
    uint16 k = n;
    if (!out) {
      FByteswapper(n);
      k = n;
    } else {
      FByteswapper(n, out);
    }
    for (int i = 0; i < 3 && i < (k & 3); i++)
      FByteswapper(v[i]);
  }
};
enum class SomeEnum : uint16 { A, B };
enum class SomeFlag : uint8 { A, B, C };
using BF8 = BitFieldType<uint8, BitMemberDecl<0, 3>, BitMemberDecl<1, 1>, BitMemberDecl<2, 4>>;
using BF16 = BitFieldType<uint16, BitMemberDecl<0, 5>, BitMemberDecl<1, 2>, BitMemberDecl<2, 6>>;
using BF32 = BitFieldType<uint32, BitMemberDecl<0, 9>, BitMemberDecl<1, 11>, BitMemberDecl<2, 12>>;
using BF64 = BitFieldType<uint64, BitMemberDecl<0, 33>, BitMemberDecl<1, 1>, BitMemberDecl<2, 30>>;

template <class T> struct Scalar { // how T is stored
  static void enc(std::string &b, const T &v, bool swap) {
    std::string x((const char *)&v, sizeof(T));
    if (swap)
      std::reverse(x.begin(), x.end());
    b += x;
  }
  static T rnd() {
    T v;
    uint64_t x = draw_u64(WORK);
    memcpy(&v, &x, sizeof(T));
    return v;
  }
};
template <> float Scalar<float>::rnd() { return (float)draw(WORK, 1 << 20) / 64 - 999; }
template <> double Scalar<double>::rnd() { return (double)draw(WORK, 1ull << 40) / 64 - 999; }
template <class T> struct Store : Scalar<T> {};
template <class V, class C, int N> struct Comps {
  static void enc(std::string &b, const V &v, bool swap) {
    const C *c = reinterpret_cast<const C *>(&v);
    for (int i = 0; i < N; i++)
      Scalar<C>::enc(b, c[i], swap);
  }
  static V rnd() {
    V v;
    C *c = reinterpret_cast<C *>(&v);
    for (int i = 0; i < N; i++)
      c[i] = Scalar<C>::rnd();
    return v;
  }
};
template <class C> struct Store<t_Vector2<C>> : Comps<t_Vector2<C>, C, 2> {};
template <class C> struct Store<t_Vector<C>> : Comps<t_Vector<C>, C, 3> {};
template <class C> struct Store<t_Vector4_<C>>
    : Comps<t_Vector4_<C>, typename C::value_type, 4> {};
template <> struct Store<Swappable> {
  static void enc(std::string &b, const Swappable &s, bool swap);
  static Swappable rnd();
};
template <> struct Store<Counted> {
  static void enc(std::string &b, const Counted &s, bool swap) {
    app(b, s.n, 2, swap);
    for (int i = 0; i < 3; i++)
      app(b, s.v[i], 2, swap && i < (s.n & 3));
  }
  static Counted rnd() {
    Counted c;
    c.n = (uint16)draw_u64(WORK);
    for (auto &v : c.v)
      v = (uint16)draw_u64(WORK);
    return c;
  }
};
template <class T, size_t... W> struct Bits {
  template <class B> static void enc_(std::string &b, const B &f, bool swap) {
    if (!swap || sizeof(T) == 1) // streams leave single bytes alone
      return app(b, f.value, sizeof(T), false);
    // from the highest bit down, in the order of declaration
    static const size_t w[] = {W...};
    uint64_t v = f.value, out = 0;
    int lo = 0, hi = sizeof(T) * 8;
    for (size_t n : w) {
      uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
      out |= (v >> lo & m) << (hi - n);
      lo += n, hi -= n;
    }
    app(b, out, sizeof(T), true);
  }
  template <class B> static B rnd_(int used) {
    B f;
    f.value = (T)draw_u64(WORK);
    if (used < (int)sizeof(T) * 8)
      f.value &= (T)((1ull << used) - 1);
    return f;
  }
};
#define BITS(B, T, USED, ...)                                                  \
  template <> struct Store<B> {                                                \
    static void enc(std::string &b, const B &f, bool s) {                      \
      Bits<T, __VA_ARGS__>::enc_(b, f, s);                                     \
    }                                                                          \
    static B rnd() { return Bits<T, __VA_ARGS__>::template rnd_<B>(USED); }    \
  };
BITS(BF8, uint8, 8, 3, 1, 4)
BITS(BF16, uint16, 13, 5, 2, 6)
BITS(BF32, uint32, 32, 9, 11, 12)
BITS(BF64, uint64, 64, 33, 1, 30)

template <class T> void w_typed(BinWritterRef &w, RefModel &rm, Model &m) {
  std::vector<T> v(work(3) ? work(6) : small() / 3);
  std::string b;
  for (auto &e : v) {
    e = Store<T>::rnd();
    Store<T>::enc(b, e, rm.swap);
  }
  std::string keep((const char *)v.data(), v.size() * sizeof(T));
  std::string c;
  switch (work(5)) {
  case 0:
    ev("WriteContainer<%zu> of a class %zu", sizeof(T), v.size());
    w.WriteContainer(v);
    break;
  case 1:
    app(c, v.size(), 2, rm.swap);
    ev("WriteContainerWCount<%zu> of a class %zu", sizeof(T), v.size());
    w.WriteContainerWCount<uint16>(v);
    break;
  case 2:
    app(c, v.size(), 4, rm.swap);
    ev("WriteContainerLambda<%zu> of a class %zu", sizeof(T), v.size());
    w.WriteContainerLambda(
        v, [](const BinWritterRef &wr, const T &e) { wr.Write(e); });
    break;
  default:
    ev("Write<%zu> of a class %zu", sizeof(T), v.size());
    for (auto &e : v)
      w.Write(e);
  }
  SIM_CHECK(!memcmp(keep.data(), v.data(), keep.size()), "argument",
            "writing changed the values written");
  m.put(c + b);
}
template <class T> struct Store_lossy { static const bool value = false; };
template <> struct Store_lossy<BF16> { static const bool value = true; };
template <class T> void r_typed(BinReaderRef &r, RefModel &rm, Model &m) {
  size_t room = m.data.size() - m.pos, n = 0;
  std::string b;
  std::vector<T> v(work(4)), want;
  int how = work(5);
  static_assert(sizeof(T) < 200, "");
  size_t at = m.pos;
  if (how < 2) {
    size_t cs = how ? 4 : 1;
    if (room < cs)
      return;
    n = dec(m.data, at, cs, rm.swap);
    at += cs;
    room -= cs;
    if (n > room / sizeof(T))
      return;
  } else if (how == 2) {
    n = 3;
  } else {
    n = work(6);
  }
  if (n > room / sizeof(T))
    return;
  ev("read kind %d of a class, %zu of %zu", how, n, sizeof(T));
  T arr[3];
  switch (how) {
  case 0:
    r.ReadContainer<uint8>(v);
    break;
  case 1:
    r.ReadContainerLambda(v, [](const BinReaderRef &rd, T &e) { rd.Read(e); });
    break;
  case 2:
    r.Read(arr);
    v.assign(arr, arr + 3);
    break;
  case 3:
    r.ReadContainer(v, n);
    break;
  default:
    v.resize(n);
    for (auto &e : v)
      r.Read(e);
  }
  SIM_CHECK(v.size() == n, "content", "%zu items instead of %zu", v.size(), n);
  for (size_t i = 0; i < n; i++) {
    std::string e;
    if (rm.swap && Store_lossy<T>::value) { // bits of no member may be lost
      T t = v[i];
      Store<T>::enc(e, t, true);
      std::string was = m.data.substr(at + i * sizeof(T), sizeof(T));
      std::string z(sizeof(T), 0);
      T all;
      memset((void *)&all, 0xff, sizeof all);
      std::string mask;
      Store<T>::enc(mask, all, true);
      for (size_t k = 0; k < sizeof(T); k++)
        was[k] &= mask[k];
      SIM_CHECK(e == was, "content", "item %zu of a class is not as stored", i);
    } else {
      Store<T>::enc(e, v[i], rm.swap);
      SIM_CHECK(!m.data.compare(at + i * sizeof(T), sizeof(T), e), "content",
                "item %zu of a class of %zu bytes is not as stored", i, sizeof(T));
    }
  }
  m.pos = at + n * sizeof(T);
}
template <int> struct OneOf {
  template <class F> static void call(F &f) {
    switch (work(15)) {
    case 0: return f.template go<float>();
    case 1: return f.template go<double>();
    case 2: return f.template go<t_Vector2<int16>>();
    case 3: return f.template go<t_Vector<float>>();
    case 4: return f.template go<t_Vector<uint8>>();
    case 5: return f.template go<Vector4>();
    case 6: return f.template go<Vector4A16>();
    case 7: return f.template go<BF8>();
    case 8: return f.template go<BF16>();
    case 9: return f.template go<BF32>();
    case 10: return f.template go<BF64>();
    case 11: return f.template go<es::Flags<SomeFlag>>();
    case 12: return f.template go<SomeEnum>();
    case 13: return f.template go<Counted>();
    default: return f.template go<Swappable>();
    }
  }
};
struct WTyped {
  BinWritterRef &w;
  RefModel &rm;
  Model &m;
  template <class T> void go() { w_typed<T>(w, rm, m); }
};
struct RTyped {
  BinReaderRef &r;
  RefModel &rm;
  Model &m;
  template <class T> void go() { r_typed<T>(r, rm, m); }
};

template <class T> void w_value(BinWritterRef &w, RefModel &rm, Model &m) {
  T v = (T)draw_u64(WORK);
  ev("Write<%zu>", sizeof(T));
  w.Write(v);
  std::string b;
  app(b, (uint64_t)(typename std::make_unsigned<T>::type)v, sizeof(T), rm.swap);
  m.put(b);
}
template <class T, class C>
void w_vector(BinWritterRef &w, RefModel &rm, Model &m) {
  std::vector<T> v(small());
  std::string b;
  for (auto &e : v) {
    e = (T)draw_u64(WORK);
    app(b, (uint64_t)(typename std::make_unsigned<T>::type)e, sizeof(T), rm.swap);
  }
  std::string c;
  app(c, (C)v.size(), sizeof(C), rm.swap);
  switch (work(3)) {
  case 0:
    ev("WriteContainer<%zu> %zu", sizeof(T), v.size());
    w.WriteContainer(v);
    m.put(b);
    break;
  case 1:
    ev("WriteContainerWCount<%zu,%zu> %zu", sizeof(C), sizeof(T), v.size());
    w.WriteContainerWCount<C>(v);
    m.put(c + b);
    break;
  default:
    ev("WriteContainerLambda<%zu,%zu> %zu", sizeof(C), sizeof(T), v.size());
    w.WriteContainerLambda<C>(
        v, [](const BinWritterRef &wr, const T &e) { wr.Write(e); });
    m.put(c + b);
  }
}
std::string enc(const Custom &c, bool swap) {
  std::string b;
  app(b, c.id, 4, swap);
  app(b, c.text.size(), 2, swap);
  return b + c.text;
}
std::string enc(const Swappable &s, bool swap) {
  std::string b;
  app(b, s.a, 2, swap);
  app(b, s.b, 2, swap);
  app(b, s.c, 4, swap);
  return b;
}
Custom mk_custom() {
  Custom c;
  c.id = (uint32)draw_u64(WORK);
  c.text = bytes(small());
  return c;
}
Swappable mk_swappable() {
  return {(uint16)draw_u64(WORK), (uint16)draw_u64(WORK), (uint32)draw_u64(WORK)};
}

void Store<Swappable>::enc(std::string &b, const Swappable &s, bool swap) {
  b += ::enc(s, swap);
}
Swappable Store<Swappable>::rnd() { return mk_swappable(); }

void w_op(BinWritterRef &w, RefModel &rm, Model &m) {
  switch (work(20)) {
  case 16:
  case 17:
  case 18:
  case 19: {
    WTyped f{w, rm, m};
    return OneOf<0>::call(f);
  }
  case 0:
    return w_value<uint8>(w, rm, m);
  case 1:
    return w_value<int16>(w, rm, m);
  case 2:
    return w_value<uint32>(w, rm, m);
  case 3:
    return w_value<int64>(w, rm, m);
  case 4:
    return w_vector<uint8, uint8>(w, rm, m);
  case 5:
    return w_vector<uint16, uint32>(w, rm, m);
  case 6:
    return w_vector<int32, uint16>(w, rm, m);
  case 7:
    return w_vector<uint64, uint64>(w, rm, m);
  case 8: {
    std::string s = bytes(small());
    ev("WriteBuffer %zu", s.size());
    w.WriteBuffer(s.data(), s.size());
    m.put(s);
    break;
  }
  case 9: {
    std::string s = bytes(small());
    std::replace(s.begin(), s.end(), '\0', 'x');
    ev("WriteT %zu", s.size());
    w.WriteT(es::string_view(s));
    m.put(s + '\0');
    break;
  }
  case 10: {
    std::wstring s;
    std::string b;
    for (size_t i = small(); i; i--)
      s.push_back(1 + (wchar_t)draw(WORK, 0x10fffe));
    for (auto c : s)
      app(b, c, sizeof(wchar_t), rm.swap);
    app(b, 0, sizeof(wchar_t), false);
    ev("WriteT wide %zu", s.size());
    w.WriteT(es::wstring_view(s));
    m.put(b);
    break;
  }
  case 11: {
    Custom c = mk_custom();
    ev("Write custom class");
    w.Write(c);
    m.put(enc(c, rm.swap));
    break;
  }
  case 12: {
    std::vector<Custom> v(work(4));
    std::string b;
    app(b, v.size(), 4, rm.swap);
    for (auto &c : v) {
      c = mk_custom();
      b += enc(c, rm.swap);
    }
    ev("WriteContainerWCount custom %zu", v.size());
    w.WriteContainerWCount(v);
    m.put(b);
    break;
  }
  case 13: {
    Swappable s = mk_swappable(), keep = s;
    ev("Write swappable");
    w.Write(s);
    SIM_CHECK(!memcmp(&s, &keep, sizeof s), "argument",
              "writing changed the value written");
    m.put(enc(s, rm.swap));
    break;
  }
  case 14: {
    std::vector<Swappable> v(work(5));
    std::string b;
    for (auto &c : v) {
      c = mk_swappable();
      b += enc(c, rm.swap);
    }
    ev("WriteContainer swappable %zu", v.size());
    w.WriteContainer(v);
    m.put(b);
    break;
  }
  case 15: {
    float f;
    uint32 bits = (uint32)draw_u64(WORK);
    memcpy(&f, &bits, 4);
    if (f != f) // signalling NaNs do not survive copies everywhere
      return;
    std::string b;
    app(b, bits, 4, rm.swap);
    ev("Write float");
    w.Write(f);
    m.put(b);
    break;
  }
  }
}

template <class T> void r_value(BinReaderRef &r, RefModel &rm, Model &m) {
  if (m.pos + sizeof(T) > m.data.size())
    return;
  T v = (T)0x5a5a5a5a5a5a5a5a;
  ev("Read<%zu>", sizeof(T));
  r.Read(v);
  T want = (T)dec(m.data, m.pos, sizeof(T), rm.swap);
  SIM_CHECK(v == want, "content", "read %llx at %llu, stored is %llx",
            (long long)v, (unsigned long long)m.pos, (long long)want);
  m.pos += sizeof(T);
}
template <class T> void r_array(BinReaderRef &r, RefModel &rm, Model &m) {
  if (m.pos + 3 * sizeof(T) > m.data.size())
    return;
  T v[3] = {};
  ev("Read array<%zu>", sizeof(T));
  r.Read(v);
  for (int i = 0; i < 3; i++) {
    T want = (T)dec(m.data, m.pos, sizeof(T), rm.swap);
    SIM_CHECK(v[i] == want, "content", "array item %d read %llx, stored %llx", i,
              (long long)v[i], (long long)want);
    m.pos += sizeof(T);
  }
}
template <class T, class C>
void r_vector(BinReaderRef &r, RefModel &rm, Model &m) {
  uint64_t room = m.data.size() - m.pos;
  std::vector<T> v(work(4));
  uint64_t n;
  int how = work(4);
  if (how & 1) {
    if (room < sizeof(C))
      return;
    n = dec(m.data, m.pos, sizeof(C), rm.swap);
    if (n > (room - sizeof(C)) / sizeof(T))
      return;
    m.pos += sizeof(C);
  } else {
    n = work(std::min<uint64_t>(room / sizeof(T), 60) + 1);
  }
  ev("ReadContainer kind %d, %llu of %zu", how, (unsigned long long)n, sizeof(T));
  auto one = [](const BinReaderRef &rd, T &e) { rd.Read(e); };
  switch (how) {
  case 0:
    r.ReadContainer(v, n);
    break;
  case 1:
    r.ReadContainer<C>(v);
    break;
  case 2:
    r.ReadContainerLambda(v, n, one);
    break;
  case 3:
    r.ReadContainerLambda<C>(v, one);
    break;
  }
  SIM_CHECK(v.size() == n, "content", "container of %zu items, stored are %llu",
            v.size(), (unsigned long long)n);
  for (uint64_t i = 0; i < n; i++) {
    T want = (T)dec(m.data, m.pos, sizeof(T), rm.swap);
    SIM_CHECK(v[i] == want, "content", "item %llu read %llx, stored %llx",
              (unsigned long long)i, (long long)v[i], (long long)want);
    m.pos += sizeof(T);
  }
}

void r_op(BinReaderRef &r, RefModel &rm, Model &m) {
  switch (work(18)) {
  case 14:
  case 15:
  case 16:
  case 17: {
    RTyped f{r, rm, m};
    return OneOf<0>::call(f);
  }
  case 0:
    return r_value<uint8>(r, rm, m);
  case 1:
    return r_value<int16>(r, rm, m);
  case 2:
    return r_value<uint32>(r, rm, m);
  case 3:
    return r_value<int64>(r, rm, m);
  case 4:
    return r_vector<uint8, uint8>(r, rm, m);
  case 5:
    return r_vector<uint16, uint8>(r, rm, m);
  case 6:
    return r_vector<int32, uint16>(r, rm, m);
  case 7:
    return r_vector<uint64, uint8>(r, rm, m);
  case 8: {
    size_t n = std::min<size_t>(small(), m.data.size() - m.pos);
    std::string b(n, 'z');
    ev("ReadBuffer %zu", n);
    r.ReadBuffer(&b[0], n);
    SIM_CHECK(b == m.data.substr(m.pos, n), "content",
              "ReadBuffer gave other bytes than stored");
    m.pos += n;
    break;
  }
  case 9: {
    size_t e = m.data.find('\0', m.pos);
    if (e == std::string::npos)
      return;
    std::string s;
    ev("ReadString");
    r.ReadString(s);
    SIM_CHECK(s == m.data.substr(m.pos, e - m.pos), "content",
              "ReadString gave %zu characters, stored are %zu", s.size(),
              e - m.pos);
    m.pos = e + 1;
    break;
  }
  case 10: {
    std::wstring want, got;
    size_t p = m.pos;
    while (true) {
      if (p + sizeof(wchar_t) > m.data.size())
        return;
      wchar_t c = (wchar_t)dec(m.data, p, sizeof(wchar_t), rm.swap);
      p += sizeof(wchar_t);
      if (!c)
        break;
      want.push_back(c);
    }
    ev("ReadString wide");
    r.ReadString(got);
    SIM_CHECK(got == want, "content", "wide ReadString differs");
    m.pos = p;
    break;
  }
  case 11:
    return r_array<uint16>(r, rm, m);
  case 12: {
    if (m.pos + 8 > m.data.size())
      return;
    Swappable s;
    ev("Read swappable");
    r.Read(s);
    SIM_CHECK(s.a == dec(m.data, m.pos, 2, rm.swap) &&
                  s.b == dec(m.data, m.pos + 2, 2, rm.swap) &&
                  s.c == dec(m.data, m.pos + 4, 4, rm.swap),
              "content", "class with SwapEndian read wrongly");
    m.pos += 8;
    break;
  }
  case 13: {
    size_t room = m.data.size() - m.pos;
    std::vector<Custom> v(work(2)), want;
    size_t n = 1 + work(2), p = m.pos;
    for (size_t i = 0; i < n; i++) {
      if (p + 6 > m.data.size())
        return;
      Custom c;
      c.id = dec(m.data, p, 4, rm.swap);
      size_t l = dec(m.data, p + 4, 2, rm.swap);
      if (p + 6 + l > m.data.size())
        return;
      c.text = m.data.substr(p + 6, l);
      p += 6 + l;
      want.push_back(c);
    }
    (void)room;
    ev("ReadContainer custom %zu", n);
    r.ReadContainer(v, n);
    for (size_t i = 0; i < n; i++)
      SIM_CHECK(v[i].id == want[i].id && v[i].text == want[i].text, "content",
                "class with its own Read read wrongly");
    m.pos = p;
    break;
  }
  }
}

// Few, but big pieces: sizes and positions beyond 16 bits.
template <class T> std::vector<T> many(size_t n) {
  std::vector<T> v(n);
  uint64_t k = draw_u64(WORK);
  for (auto &e : v)
    e = (T)(k = k * 6364136223846793005ull + 1442695040888963407ull);
  return v;
}
template <class T, class C> void big_vector(int how, Model &m, DevBuf &buf, bool swap) {
  size_t n = sizeof(C) == 2 ? 65535 - work(9) : 65530 + work(5000);
  auto v = many<T>(n);
  std::string b;
  for (auto e : v)
    app(b, (uint64_t)(typename std::make_unsigned<T>::type)e, sizeof(T), swap);
  uint64_t at = m.pos;
  {
    std::ostream os(&buf);
    BinWritterRef w(os);
    w.SwapEndian(swap);
    ev("big container kind %d, %zu of %zu, count of %zu", how, n, sizeof(T), sizeof(C));
    if (how) {
      std::string c;
      app(c, n, sizeof(C), swap);
      m.put(c);
    }
    if (how == 0)
      w.WriteContainer(v);
    else if (how == 1)
      w.WriteContainerWCount<C>(v);
    else
      w.WriteContainerLambda<C>(v, [](const BinWritterRef &wr, const T &e) { wr.Write(e); });
    m.put(b);
    os.flush();
    SIM_CHECK(os.good() && w.Tell() == m.pos, "position",
              "after a big container the writer is at %llu, expected %llu",
              (unsigned long long)w.Tell(), (unsigned long long)m.pos);
  }
  std::istream is(&buf);
  BinReaderRef r(is);
  r.SwapEndian(swap);
  r.Seek(at);
  std::vector<T> got(work(3));
  auto one = [](const BinReaderRef &rd, T &e) { rd.Read(e); };
  if (how == 0 && work(2))
    r.ReadContainer(got, n);
  else if (how == 0)
    r.ReadContainerLambda(got, n, one);
  else if (work(2))
    r.ReadContainer<C>(got);
  else
    r.ReadContainerLambda<C>(got, one);
  SIM_CHECK(is.good() && r.Tell() == m.pos, "position",
            "after a big container the reader is at %llu, expected %llu",
            (unsigned long long)r.Tell(), (unsigned long long)m.pos);
  SIM_CHECK(got == v, "content", "a big container is read as %zu other items", got.size());
}
void c10_big() {
  Medium med;
  Model m;
  bool swap = work(2);
  DevBuf buf(med, 64 + work(9000), 64 + work(9000));
  for (size_t k = 1 + work(3); k; k--) {
    switch (work(8)) {
    case 0:
      big_vector<uint8, uint32>(work(3), m, buf, swap);
      break;
    case 1:
      big_vector<uint16, uint32>(work(3), m, buf, swap);
      break;
    case 2:
      big_vector<int32, uint16>(1 + work(2), m, buf, swap);
      break;
    case 3:
      big_vector<uint64, uint64>(work(3), m, buf, swap);
      break;
    case 4: {
      std::string t = bytes(65530 + work(5000));
      std::replace(t.begin(), t.end(), '\0', 'x');
      bool raw = work(2);
      uint64_t at = m.pos;
      std::ostream os(&buf);
      BinWritterRef w(os);
      ev("big text %zu", t.size());
      if (raw)
        w.WriteBuffer(t.data(), t.size());
      else
        w.WriteT(es::string_view(t));
      os.flush();
      m.put(raw ? t : t + '\0');
      SIM_CHECK(os.good() && w.Tell() == m.pos, "position", "big text moves the writer wrongly");
      std::istream is(&buf);
      BinReaderRef r(is);
      r.Seek(at);
      std::string got;
      if (raw) {
        got.resize(t.size());
        r.ReadBuffer(&got[0], got.size());
      } else {
        r.ReadString(got);
      }
      SIM_CHECK(is.good() && got == t && r.Tell() == m.pos, "content",
                "a big text is read as %zu other bytes", got.size());
      break;
    }
    default: { // far away, relative to there
      std::ostream os(&buf);
      BinWritterRef w(os);
      uint64_t origin = 65536 + work(200000), to = work(70000), back = work(to + 1);
      ev("far away: %llu + %llu - %llu", (unsigned long long)origin,
         (unsigned long long)to, (unsigned long long)back);
      if (m.data.size() < origin + to) {
        w.Seek(0, std::ios_base::end);
        w.Skip((int)(origin + to - m.data.size()) + 1);
        m.data.resize(origin + to + 1);
      }
      w.Seek(origin);
      w.SetRelativeOrigin(origin);
      w.Skip((int)to);
      m.pos = origin;
      m.put(std::string(to, 0)); // skipping ahead writes zeroes
      w.Push();
      w.Skip(-(int)back);
      SIM_CHECK(w.Tell() == to - back, "position", "writer is at %llu, expected %llu",
                (unsigned long long)w.Tell(), (unsigned long long)(to - back));
      std::string b = bytes(8);
      w.WriteBuffer(b.data(), 8);
      m.pos = origin + to - back;
      m.put(b);
      w.Pop();
      SIM_CHECK(os.good() && w.Tell() == to, "position", "writer returns to %llu, expected %llu",
                (unsigned long long)w.Tell(), (unsigned long long)to);
      os.flush();
      {
        std::istream is(&buf);
        BinReaderRef r(is);
        r.SetRelativeOrigin(origin);
        r.Seek(to);
        r.Push();
        if (work(2))
          r.Skip(-(int)back);
        else
          r.Seek(-(int64_t)back, std::ios_base::cur);
        std::string got(8, 0);
        r.ReadBuffer(&got[0], 8);
        SIM_CHECK(got == b && r.Tell() == to - back + 8, "content",
                  "what was written far away is not read, reader at %llu",
                  (unsigned long long)r.Tell());
        r.Pop();
        SIM_CHECK(is.good() && r.Tell() == to, "position",
                  "reader returns to %llu, expected %llu",
                  (unsigned long long)r.Tell(), (unsigned long long)to);
        r.Seek(0);
        if (to > 70 && work(2)) {
          r.Skip((int)to - 1);
          SIM_CHECK(r.Tell() == to - 1, "position", "reader skips to %llu", (unsigned long long)r.Tell());
        }
      }
      w.Seek(to); // they share the medium's position
      w.ResetRelativeOrigin(false);
      m.pos = w.Tell();
      SIM_CHECK(m.pos == origin + to, "position", "origin is not reset");
      break;
    }
    }
  }
  m.data.resize(std::max(m.data.size(), med.data.size()));
  SIM_CHECK(med.data == m.data, "content", "%zu bytes stored differ from the %zu written",
            med.data.size(), m.data.size());
}

template <class R> void far_off(R &r, RefModel &rm, Model &m) {
  r.Seek(m.base);
  r.Push();
  rm.origin = -m.base;
  check_pos(r, rm, m, "Seek");
}

void c10() {
  if (chance(WORK, 1, 300))
    return c10_big();
  Medium med;
  Model m;
  if (work(8) == 7) { // behind more than a number of 31 or 32 bits counts
    static const uint64_t far[] = {1ull << 32, (1ull << 32) - 50, (1ull << 31) - 50,
                                   1ull << 31, 5ull << 30, (3ull << 32) + 17};
    m.base = med.holeLen = far[work(6)];
    ev("the data begins at %llu", (unsigned long long)m.base);
  }
  {
    DevBuf buf(med, 1 + work(64), 1 + work(64));
    std::ostream os(&buf);
    std::vector<BinWritterRef> w(1 + work(2), BinWritterRef(os));
    std::vector<RefModel> rm(w.size());
    if (med.holeLen)
      for (size_t i = 0; i < w.size(); i++)
        far_off(w[i], rm[i], m);
    size_t n = 1 + work(30);
    for (size_t i = 0; i < n; i++) {
      size_t k = work(w.size());
      if (work(3))
        w_op(w[k], rm[k], m);
      else
        navigate(w[k], rm[k], m, std::min<uint64_t>(m.data.size() + 40, 4000),
                 true);
      SIM_CHECK(os.good(), "state", "the writer's stream failed without a fault");
      check_pos(w[k], rm[k], m, "a write operation");
      if (w.size() > 1)
        check_pos(w[!k], rm[!k], m, "the other writer's operation");
    }
    os.flush();
    shape(m.data.size() * 64 + n);
  }
  // seeking past the end leaves nothing behind unless written
  SIM_CHECK(med.data == m.data, "content",
            "stored %zu bytes differ from the %zu written", med.data.size(),
            m.data.size());
  for (unsigned char c : m.data)
    mix(c);
  if (work(4) == 0) // foreign data
    m.data = med.data = bytes(work(120));
  m.pos = 0;
  DevBuf buf(med, 1 + work(64), 16);
  std::istream is(&buf);
  std::vector<BinReaderRef> r(1 + work(2), BinReaderRef(is));
  std::vector<RefModel> rm(r.size());
  if (med.holeLen)
    for (size_t i = 0; i < r.size(); i++)
      far_off(r[i], rm[i], m);
  size_t n = 1 + work(30);
  for (size_t i = 0; i < n; i++) {
    size_t k = work(r.size());
    if (work(2))
      r_op(r[k], rm[k], m);
    else
      navigate(r[k], rm[k], m, m.data.size(), false);
    SIM_CHECK(is.good() && !r[k].IsEOF(), "state",
              "the reader's stream failed although nothing was read past its end");
    check_pos(r[k], rm[k], m, "a read operation");
    if (r.size() > 1)
      check_pos(r[!k], rm[!k], m, "the other reader's operation");
  }
  shape(n * 77 + m.pos);
}
SIM_PROP_BATCH("C10", c10);

// ------------------------------------------------------------------- C11

// got must be: the stored bytes up to some point, then untouched (fill).
// Byte order inside an item may be swapped.
void check_prefix(const unsigned char *got, const std::string &data, size_t at,
                  size_t n, size_t item, bool swap, unsigned char fill,
                  size_t avail, bool mayStop, const char *what) {
  // undo the swap
  std::string g((const char *)got, n);
  if (swap)
    for (size_t i = 0; i + item <= n; i += item)
      std::reverse(g.begin() + i, g.begin() + i + item);
  size_t k = 0;
  while (k < n && at + k < data.size() && g[k] == data[at + k])
    k++;
  size_t must = std::min(n, avail);
  SIM_CHECK(mayStop || k >= must, "lost",
            "%s: %zu bytes were there, only %zu arrived", what, must, k);
  // a later byte may equal the fill by chance: accept the earliest split
  for (size_t j = 0; j <= k; j++) {
    bool ok = true;
    for (size_t i = j; i < n && ok; i++)
      ok = (unsigned char)g[i] == fill;
    if (ok)
      return;
  }
  fail("fabricated",
       "%s: after %zu stored bytes the result holds data that is not stored",
       what, k);
}

void c11() {
  Medium med;
  std::string full;
  // what was written (small counts so that foreign reads stay bounded)
  std::vector<Custom> recs(work(5));
  bool swap = work(2);
  app(full, recs.size(), 2, swap);
  for (auto &c : recs) {
    c = mk_custom();
    full += enc(c, swap);
  }
  size_t strAt = full.size();
  std::string str = bytes(small());
  std::replace(str.begin(), str.end(), '\0', 'x');
  full += str + '\0';
  size_t wstrAt = full.size();
  std::wstring wstr;
  for (size_t i = small() % 20; i; i--)
    wstr.push_back(1 + (wchar_t)draw(WORK, 0x10fffe));
  for (auto c : wstr)
    app(full, c, sizeof(wchar_t), swap);
  app(full, 0, sizeof(wchar_t), swap);
  size_t vecAt = full.size();
  std::vector<uint32> vec(small() % 40);
  app(full, vec.size(), 4, swap);
  for (auto &e : vec) {
    e = (uint32)draw_u64(WORK);
    app(full, e, 4, swap);
  }
  size_t intAt = full.size();
  for (int i = 0; i < 3; i++)
    full += std::string(draw(WORK, 9), '\x85') + '\x05';

  // faults
  bool hard = false, soft = false, seekf = false;
  med.data = full;
  switch (draw(FAULT, 5)) {
  case 0:
    break;
  case 1:
  case 2: {
    size_t cut = full.size() - draw(FAULT, full.size() + 1);
    if (cut < full.size()) {
      med.data.resize(cut);
      ev("FAULT medium truncated to %zu of %zu", cut, full.size());
      count("fault.truncated");
      shape(cut);
    }
    break;
  }
  case 3:
    med.readThrowAt = 1 + draw(FAULT, 12);
    med.sticky = draw(FAULT, 2);
    hard = true;
    break;
  case 4:
    if (draw(FAULT, 2)) {
      med.readEofAt = 1 + draw(FAULT, 12);
      med.sticky = draw(FAULT, 2);
      soft = true;
    } else {
      med.seekFailAt = 1 + draw(FAULT, 6);
      med.sticky = draw(FAULT, 2);
      seekf = true;
    }
    break;
  }
  DevBuf buf(med, 1 + work(24), 16);
  std::istream is(&buf);
  BinReaderRef r(is);
  r.SwapEndian(swap);
  bool faulty = hard || soft || seekf;
  mem::cap(1 << 20);
  size_t n = 1 + work(6);
  bool clearBetween = work(2);
  for (size_t i = 0; i < n; i++) {
    static const char *names[] = {"values", "records", "ReadString",
                                  "wide ReadString", "ReadContainer",
                                  "ReadContainerLambda", "varints", "ReadBuffer"};
    int op = work(8);
    size_t at = op == 1   ? 0
                : op == 2 ? strAt
                : op == 3 ? wstrAt
                : op == 4 || op == 5 ? vecAt
                : op == 6 ? intAt
                          : work(full.size() + 4);
    if (clearBetween)
      is.clear();
    bool wasGood = is.good();
    bool eofBefore = r.IsEOF();
    (void)eofBefore;
    r.Seek(at);
    // where the reading starts if the stream was usable
    bool placed = wasGood && !is.fail();
    size_t avail = placed && at < med.data.size() ? med.data.size() - at : 0;
    bool may = faulty || !placed;
    ev("%s at %zu (%s)", names[op], at, placed ? "placed" : "stream failed");
    const std::string &d = med.data;
    uint64_t firedBefore = med.fired;
    size_t need = 0; // bytes a complete read needs
    switch (op) {
    case 0: {
      uint64 v[3];
      memset(v, 0x77, sizeof v);
      r.Read(v[0]);
      r.Read(v[1]);
      r.Read(v[2]);
      check_prefix((unsigned char *)v, d, at, 24, 8, swap, 0x77, avail, may,
                   "Read");
      need = 24;
      break;
    }
    case 1: {
      std::vector<Custom> got(work(3));
      for (auto &g : got) {
        g.id = 0xabababab;
      }
      r.ReadContainer<uint16>(got);
      SIM_CHECK(got.size() <= recs.size(), "fabricated",
                "%zu records where at most %zu are stored", got.size(),
                recs.size());
      for (size_t k = 0; k < got.size(); k++)
        SIM_CHECK(got[k].text.size() <= recs[k].text.size(), "fabricated",
                  "a text of %zu characters where %zu are stored",
                  got[k].text.size(), recs[k].text.size());
      if (!may && avail >= strAt) {
        SIM_CHECK(got.size() == recs.size(), "lost", "records are missing");
        for (size_t k = 0; k < got.size(); k++)
          SIM_CHECK(got[k].id == recs[k].id && got[k].text == recs[k].text,
                    "content", "record %zu differs", k);
      }
      need = strAt;
      break;
    }
    case 2: {
      std::string got;
      r.ReadString(got);
      SIM_CHECK(got.size() <= str.size() && str.compare(0, got.size(), got) == 0,
                "fabricated", "ReadString gave %zu characters that are not stored",
                got.size());
      SIM_CHECK(may || got.size() == std::min(avail, str.size()), "lost",
                "ReadString gave %zu of %zu characters", got.size(),
                std::min(avail, str.size()));
      need = str.size() + 1;
      break;
    }
    case 3: {
      std::wstring got;
      r.ReadString(got);
      if (may && !got.empty() && got.size() <= wstr.size() &&
          got.back() != wstr[got.size() - 1]) {
        // hard error inside of a character: its stored bytes, then zeros
        check_prefix((unsigned char *)&got.back(), d,
                     at + (got.size() - 1) * sizeof(wchar_t), sizeof(wchar_t),
                     sizeof(wchar_t), swap, 0, 0, true, "wide ReadString");
        got.pop_back();
      }
      SIM_CHECK(got.size() <= wstr.size() && wstr.compare(0, got.size(), got) == 0,
                "fabricated", "wide ReadString gave characters that are not stored");
      SIM_CHECK(may || got.size() == std::min(avail / sizeof(wchar_t), wstr.size()),
                "lost", "wide ReadString lost characters");
      need = (wstr.size() + 1) * sizeof(wchar_t);
      break;
    }
    case 4:
    case 5: {
      std::vector<uint32> got(work(3));
      if (op == 4)
        r.ReadContainer(got);
      else
        r.ReadContainerLambda(got, [](const BinReaderRef &rd, uint32 &e) {
          e = 0;
          rd.Read(e);
        });
      SIM_CHECK(got.size() <= vec.size(), "fabricated",
                "%zu items where %zu are stored", got.size(), vec.size());
      bool whole = got.size() == vec.size();
      SIM_CHECK(may || whole || avail < 4, "lost", "items are missing");
      if (whole && !got.empty() && placed) {
        if (may)
          // a fault between count and items: only stored items or zeros
          for (size_t k = 0; k < got.size(); k++) {
            uint32 x = got[k];
            check_prefix((unsigned char *)&x, d, at + 4 + 4 * k, 4, 4, swap, 0,
                         0, true, "container item");
          }
        else
          check_prefix((unsigned char *)got.data(), d, at + 4, 4 * got.size(), 4,
                       swap, 0, avail >= 4 ? avail - 4 : 0, false, "container");
      }
      need = 4 + 4 * vec.size();
      break;
    }
    case 6: {
      for (int k = 0; k < 3; k++) {
        if (work(2)) {
          buint128 b(123);
          r.Read(b);
        } else {
          bint128 b(-123);
          r.Read(b);
        }
        if (!placed || (is.fail() && !faulty)) {
          // at the end nothing is left to decode
        }
      }
      if (!placed || avail == 0) {
        buint128 b(123);
        bint128 c(-123);
        r.Read(b);
        r.Read(c);
        SIM_CHECK(b.value == 0 && c.value == 0, "fabricated",
                  "a number was decoded from nothing: %llu %lld",
                  (unsigned long long)b.value, (long long)c.value);
      }
      break;
    }
    case 7: {
      size_t len = small();
      std::string b(len + 8, '\x77');
      r.ReadBuffer(&b[0], len);
      check_prefix((unsigned char *)b.data(), d, at, len, 1, false, 0x77, avail,
                   may, "ReadBuffer");
      SIM_CHECK(b.compare(len, 8, "\x77\x77\x77\x77\x77\x77\x77\x77") == 0,
                "overrun", "ReadBuffer wrote past the requested size");
      need = len;
      break;
    }
    }
    if (placed && !faulty && need) {
      // the end of the data shows, and only the end of the data
      SIM_CHECK(r.IsEOF() == (avail < need), "eof",
                "%s: %zu bytes needed, %zu there, IsEOF() says %d", names[op],
                need, avail, r.IsEOF());
    }
    if (placed && med.fired != firedBefore)
      SIM_CHECK(!is.good(), "silent", "a failed transfer left the stream good");
    SIM_CHECK(!mem::refused(), "fabricated",
              "a size that was never stored was allocated");
  }
  if (!faulty && med.data.size() == full.size())
    trivial();
  mem::cap(64 << 20);
}
SIM_PROP_BATCH("C11", c11);

// ------------------------------------------------------------------- C12

void c12() {
  Medium med;
  struct Item {
    bool sgn;
    uint64_t v;
    size_t at, end;
  };
  std::vector<Item> items(1 + work(8));
  bool swap = work(2);
  {
    DevBuf buf(med, 16, 1 + work(12));
    std::ostream os(&buf);
    BinWritterRef w(os);
    w.SwapEndian(swap);
    for (auto &i : items) {
      i.sgn = work(2);
      if (work(4) == 0) { // around the steps of the coding
        uint64_t b = 1ull << std::min<uint64_t>(63, 6 + 7 * work(9) + work(2));
        i.v = b + work(3) - 1;
        if (work(2))
          i.v = ~i.v + work(3) - 1;
      } else {
        i.v = draw_u64(WORK);
      }
      i.at = w.Tell();
      if (i.sgn)
        w.Write(bint128((int64)i.v));
      else
        w.Write(buint128(i.v));
      i.end = w.Tell();
      ev("%s %llx: %zu bytes", i.sgn ? "signed" : "unsigned",
         (unsigned long long)i.v, i.end - i.at);
      shape(i.v * 2 + i.sgn);
      SIM_CHECK(i.end - i.at >= 1 && i.end - i.at <= 9, "length",
                "%s %llx takes %zu bytes", i.sgn ? "signed" : "unsigned",
                (unsigned long long)i.v, i.end - i.at);
    }
  }
  // possibly torn
  size_t size = med.data.size();
  if (draw(FAULT, 4) == 3) {
    size = draw(FAULT, med.data.size() + 1);
    ev("FAULT medium truncated to %zu", size);
    count("fault.truncated");
    med.data.resize(size);
  }
  DevBuf buf(med, 1 + work(12), 16);
  std::istream is(&buf);
  BinReaderRef r(is);
  r.SwapEndian(work(2));
  for (auto &i : items) {
    uint64_t got, ret;
    if (i.sgn) {
      bint128 b(-77);
      ret = b.Read(r);
      got = b.value;
    } else {
      buint128 b(77);
      ret = b.Read(r);
      got = b.value;
    }
    SIM_CHECK(ret == got, "value", "Read() returns another value than it stored");
    if (i.end <= size) {
      SIM_CHECK(got == i.v, "value", "%s %llx read back as %llx",
                i.sgn ? "signed" : "unsigned", (unsigned long long)i.v,
                (unsigned long long)got);
      SIM_CHECK(!r.IsEOF() && (size_t)r.Tell() == i.end, "framing",
                "the number ended at %zu, reading it at %zu", i.end,
                (size_t)r.Tell());
    } else {
      SIM_CHECK(r.IsEOF(), "framing", "a torn number read without end of data");
      // nothing but the stored bits
      uint64_t bits = 0;
      for (size_t k = 0; i.at + k < size && k < 9; k++) {
        unsigned char c = med.data[i.at + k];
        bits |= (uint64_t)(k == 8 ? c : c & 0x7f) << (7 * k);
      }
      // (whether a negative one was meant may be unknown)
      SIM_CHECK(got == bits || (i.at < size && i.sgn && got == ~bits), "fabricated",
                "a torn number of bits %llx read as %llx",
                (unsigned long long)bits, (unsigned long long)got);
      break;
    }
  }
}
SIM_PROP_BATCH("C12", c12);

} // namespace

