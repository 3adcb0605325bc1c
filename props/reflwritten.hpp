// Reflected classes written with the library's own macros, as its users write
// them, with a description of each by hand. World draws them like the classes
// it makes up.
#pragma once
#include "datas/bitfield.hpp"
#include "datas/flags.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/vectors_simd.hpp"
#include <array>
#include <string>

REFLECTOR_CREATE(WrColor, ENUM, 2, CLASS, 8, Red, Green = 3, Blue, Deep = 0x2a,
                 Last);
REFLECTOR_CREATE(WrPlain, ENUM, 0, WrP_none, WrP_one, WrP_many = 70000,
                 WrP_more);
REFLECTOR_CREATE(WrHalf, ENUM, 2, CLASS, 16, A, B, C = 9, D = 14);
REFLECTOR_CREATE(WrWide, ENUM, 2, CLASS, 64, Low, Mid = 70000,
                 High = 0xffffffff00);

struct WrBare { // number of flags: 0
  int8 wb0;
  uint8 wb1;
  int16 wb2;
  uint16 wb3;
  int32 wb4;
  uint32 wb5;
  int64 wb6;
  uint64 wb7;
  float wb8;
  double wb9;
  bool wb10;
  es::Flags<WrColor, uint64> wb11;
};
REFLECTOR_CREATE(WrBare, 0, wb0, wb1, wb2, wb3, wb4, wb5, wb6, wb7, wb8, wb9,
                 wb10, wb11);

struct WrSmall {
  uint16 ws0;
  WrColor ws1;
  bool ws2[3];
  std::array<int64, 2> ws3;
  void ReflectorTag();
};
REFLECTOR_CREATE(WrSmall, 1, VARNAMES, ws0, ws1, ws2, ws3);

struct WrMixed {
  float wm0;
  WrPlain wm1;
  int32 notReflected;
  WrWide wm2;
  es::Flags<WrHalf> wm3;
  std::array<WrColor, 5> wm4;
  WrHalf wm5[2];
  std::array<es::Flags<WrHalf, uint32>, 2> wm6;
  Vector wm7;
  SVector2 wm8;
  UCVector4 wm9;
  Vector4A16 wm10;
  IVector wm11[2];
  std::array<t_Vector2<double>, 2> wm12;
  std::string wm13;
  std::string wm14[2];
  std::array<uint8, 7> wm15;
};
REFLECTOR_CREATE(WrMixed, 1, EXTENDED, (, wm0), (A, wm1, "wm one"),
                 (D, wm2, "How wide%light years"),
                 (AD, wm3, "wm_three", "No unit"), (, wm4), (A, wm5, "wm_five"),
                 (D, wm6, "Half%%"), (, wm7), (, wm8), (AD, wm9, "wmn", "x%y"),
                 (, wm10), (, wm11), (, wm12), (, wm13), (A, wm14, "wm_texts"),
                 (, wm15));

using wbits0 = BitMemberDecl<0, 3>;
using wbits1 = BitMemberDecl<1, 1>;
using wbits2 = BitMemberDecl<2, 12>;
using wbits3 = BitMemberDecl<3, 5>;
using WrBits = BitFieldType<uint32, wbits0, wbits1, wbits2, wbits3>;
REFLECTOR_CREATE(WrBits, BITFIELD, 1, VARNAMES, wbits0, wbits1, wbits2, wbits3);
using wlong0 = BitMemberDecl<0, 33>;
using wlong1 = BitMemberDecl<1, 1>;
using wlong2 = BitMemberDecl<2, 30>;
using WrLong = BitFieldType<uint64, wlong0, wlong1, wlong2>;
REFLECTOR_CREATE(WrLong, BITFIELD, 1, EXTENDED, (, wlong0), (A, wlong1, "wl_bit"),
                 (AD, wlong2, "wl_rest", "rest%of it"));

struct WrNest {
  uint8 wn0;
  WrSmall wn1;
  WrBits wn2;
  WrSmall wn3[3];
  std::array<WrSmall, 2> wn4;
  WrLong wn5[2];
  std::array<WrBits, 3> wn6;
  int16 wn7;
};
REFLECTOR_CREATE(WrNest, 1, VARNAMES, wn0, wn1, wn2, wn3, wn4, wn5, wn6, wn7);

template <class A, class B> struct WrPair {
  A wp0;
  B wp1;
  B wp2[4];
  void ReflectorTag();
};
REFLECTOR_CREATE((WrPair<int16, double>), 2, VARNAMES, TEMPLATE, wp0, wp1, wp2);

struct WrMany {
  uint8 x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15,
      x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30,
      x31, x32, x33, x34;
  WrPair<int16, double> pair;
};
REFLECTOR_CREATE(WrMany, 1, VARNAMES, x0, x1, x2, x3, x4, x5, x6, x7, x8, x9,
                 x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22,
                 x23, x24, x25, x26, x27, x28, x29, x30, x31, x32, x33, x34,
                 pair);

namespace rg {

inline EnumDef written_enum(const char *name,
                            std::vector<std::pair<const char *, uint64>> v) {
  EnumDef e;
  e.name = name;
  e.hash = hash_of(e.name);
  for (auto &p : v) {
    e.names.push_back(p.first);
    e.values.push_back(p.second);
  }
  return e;
}

struct Written {
  enum { Bare, Small, Mixed, Bits, Long, Nest, Pair, Many, N };
  World &w;

  explicit Written(World &w_) : w(w_) {}

  const EnumDef *enumeration(int k) {
    if (w.writtenEnum[k])
      return w.writtenEnum[k];
    switch (k) {
    case 0:
      RegisterReflectedTypes<WrColor>{};
      w.enums.push_back(written_enum(
          "WrColor",
          {{"Red", 0}, {"Green", 3}, {"Blue", 4}, {"Deep", 42}, {"Last", 43}}));
      break;
    case 1:
      RegisterReflectedTypes<WrPlain>{};
      w.enums.push_back(written_enum("WrPlain", {{"WrP_none", 0},
                                                 {"WrP_one", 1},
                                                 {"WrP_many", 70000},
                                                 {"WrP_more", 70001}}));
      break;
    case 2:
      RegisterReflectedTypes<WrHalf>{};
      w.enums.push_back(
          written_enum("WrHalf", {{"A", 0}, {"B", 1}, {"C", 9}, {"D", 14}}));
      break;
    default:
      RegisterReflectedTypes<WrWide>{};
      w.enums.push_back(written_enum(
          "WrWide", {{"Low", 0}, {"Mid", 70000}, {"High", 0xffffffff00}}));
    }
    return w.writtenEnum[k] = &w.enums.back();
  }

  // One member: `bytes` of one element; `count` of zero when it is no array.
  static Member &add(Cls &c, const char *name, REFType kind, size_t offset,
                     size_t bytes, size_t count = 0) {
    c.m.emplace_back();
    Member &x = c.m.back();
    x.name = name;
    x.kind = kind;
    x.stride = bytes;
    x.array = count;
    x.count = count ? count : 1;
    x.t.type = count ? REFType::Array : kind;
    x.t.subType = count ? kind : REFType::None;
    x.t.subSize =
        !count && (kind == REFType::String || kind == REFType::CString) ? 0 : bytes;
    x.t.numItems = count ? count : kind == REFType::EnumFlags;
    x.t.offset = offset;
    return x;
  }
  static void alias(Member &x, const char *a) {
    x.hasAlias = true;
    x.alias = a;
  }
  static void vec(Member &x, REFType el, size_t bytes, size_t items) {
    if (!x.array) {
      x.t.subType = el;
      x.t.subSize = bytes;
      x.t.numItems = items;
    }
    x.t.typeHash = JenHash((uint32)el | (uint32)bytes << 8 | (uint32)items << 16);
  }
  void of(Member &x, int k) {
    x.en = enumeration(k);
    x.t.typeHash = x.en->hash;
  }
  void of(Member &x, const Cls *sub) {
    x.sub = sub;
    x.t.typeHash = sub->hash;
  }
  static void bit(Cls &c, const char *name, size_t from, size_t bits) {
    c.m.emplace_back();
    Member &x = c.m.back();
    x.name = name;
    x.kind = x.t.type = REFType::BitFieldMember;
    x.t.subType = REFType::UnsignedInteger;
    x.t.subSize = bits;
    x.t.offset = from;
  }

  template <class T> const Cls *done(Cls &&made, int k, bool reg = true) {
    Cls c = std::move(made);
    if (reg)
      c.hash = hash_of(c.name);
    c.size = sizeof(T);
    c.align = alignof(T);
    for (auto &x : c.m)
      if (x.kind == REFType::Class)
        c.depth = std::max(c.depth, x.sub->depth + 1);
    w.classes.push_back(std::move(c));
    Cls &r = w.classes.back();
    r.seal();
    r.real = GetReflectedClass<T>();
    if (reg)
      RegisterReflectedTypes<T>{};
    return w.writtenCls[k] = &r;
  }

  const Cls *get(int k) {
    if (w.writtenCls[k])
      return w.writtenCls[k];
    using R = REFType;
    const R I = R::Integer, U = R::UnsignedInteger, F = R::FloatingPoint;
    Cls c;
    switch (k) {
    case Bare: {
      using T = WrBare;
      c.name = "WrBare";
      c.names = false;
      add(c, "wb0", I, offsetof(T, wb0), 1);
      add(c, "wb1", U, offsetof(T, wb1), 1);
      add(c, "wb2", I, offsetof(T, wb2), 2);
      add(c, "wb3", U, offsetof(T, wb3), 2);
      add(c, "wb4", I, offsetof(T, wb4), 4);
      add(c, "wb5", U, offsetof(T, wb5), 4);
      add(c, "wb6", I, offsetof(T, wb6), 8);
      add(c, "wb7", U, offsetof(T, wb7), 8);
      add(c, "wb8", F, offsetof(T, wb8), 4);
      add(c, "wb9", F, offsetof(T, wb9), 8);
      add(c, "wb10", R::Bool, offsetof(T, wb10), 1);
      of(add(c, "wb11", R::EnumFlags, offsetof(T, wb11), 8), 0);
      return done<T>(std::move(c), k, false);
    }
    case Small: {
      using T = WrSmall;
      c.name = "WrSmall";
      add(c, "ws0", U, offsetof(T, ws0), 2);
      of(add(c, "ws1", R::Enum, offsetof(T, ws1), 1), 0);
      add(c, "ws2", R::Bool, offsetof(T, ws2), 1, 3);
      add(c, "ws3", I, offsetof(T, ws3), 8, 2);
      return done<T>(std::move(c), k);
    }
    case Mixed: {
      using T = WrMixed;
      c.name = "WrMixed";
      c.ext = true;
      add(c, "wm0", F, offsetof(T, wm0), 4);
      of(add(c, "wm1", R::Enum, offsetof(T, wm1), 4), 1);
      alias(c.m.back(), "wm one");
      of(add(c, "wm2", R::Enum, offsetof(T, wm2), 8), 3);
      c.m.back().part1 = "How wide", c.m.back().part2 = "light years";
      of(add(c, "wm3", R::EnumFlags, offsetof(T, wm3), 2), 2);
      alias(c.m.back(), "wm_three");
      c.m.back().part1 = "No unit";
      of(add(c, "wm4", R::Enum, offsetof(T, wm4), 1, 5), 0);
      of(add(c, "wm5", R::Enum, offsetof(T, wm5), 2, 2), 2);
      alias(c.m.back(), "wm_five");
      of(add(c, "wm6", R::EnumFlags, offsetof(T, wm6), 4, 2), 2);
      c.m.back().part1 = "Half", c.m.back().part2 = "%";
      vec(add(c, "wm7", R::Vector, offsetof(T, wm7), 12), F, 4, 3);
      vec(add(c, "wm8", R::Vector, offsetof(T, wm8), 4), I, 2, 2);
      vec(add(c, "wm9", R::Vector, offsetof(T, wm9), 4), U, 1, 4);
      alias(c.m.back(), "wmn");
      c.m.back().part1 = "x", c.m.back().part2 = "y";
      vec(add(c, "wm10", R::Vector, offsetof(T, wm10), 16), F, 4, 4);
      vec(add(c, "wm11", R::Vector, offsetof(T, wm11), 12, 2), I, 4, 3);
      vec(add(c, "wm12", R::Vector, offsetof(T, wm12), 16, 2), F, 8, 2);
      add(c, "wm13", R::String, offsetof(T, wm13), sizeof(std::string));
      add(c, "wm14", R::String, offsetof(T, wm14), sizeof(std::string), 2);
      alias(c.m.back(), "wm_texts");
      add(c, "wm15", U, offsetof(T, wm15), 1, 7);
      return done<T>(std::move(c), k);
    }
    case Bits:
      c.name = "WrBits";
      c.bits = true;
      bit(c, "wbits0", 0, 3);
      bit(c, "wbits1", 3, 1);
      bit(c, "wbits2", 4, 12);
      bit(c, "wbits3", 16, 5);
      return done<WrBits>(std::move(c), k);
    case Long:
      c.name = "WrLong";
      c.bits = c.ext = true;
      bit(c, "wlong0", 0, 33);
      bit(c, "wlong1", 33, 1);
      alias(c.m.back(), "wl_bit");
      bit(c, "wlong2", 34, 30);
      alias(c.m.back(), "wl_rest");
      c.m.back().part1 = "rest", c.m.back().part2 = "of it";
      return done<WrLong>(std::move(c), k);
    case Nest: {
      using T = WrNest;
      c.name = "WrNest";
      const Cls *s = get(Small), *b = get(Bits), *l = get(Long);
      add(c, "wn0", U, offsetof(T, wn0), 1);
      of(add(c, "wn1", R::Class, offsetof(T, wn1), sizeof(WrSmall)), s);
      of(add(c, "wn2", R::BitFieldClass, offsetof(T, wn2), 4), b);
      of(add(c, "wn3", R::Class, offsetof(T, wn3), sizeof(WrSmall), 3), s);
      of(add(c, "wn4", R::Class, offsetof(T, wn4), sizeof(WrSmall), 2), s);
      of(add(c, "wn5", R::BitFieldClass, offsetof(T, wn5), 8, 2), l);
      of(add(c, "wn6", R::BitFieldClass, offsetof(T, wn6), 4, 3), b);
      add(c, "wn7", I, offsetof(T, wn7), 2);
      return done<T>(std::move(c), k);
    }
    case Pair: {
      using T = WrPair<int16, double>;
      c.name = "WrPair<int16, double>";
      add(c, "wp0", I, offsetof(T, wp0), 2);
      add(c, "wp1", F, offsetof(T, wp1), 8);
      add(c, "wp2", F, offsetof(T, wp2), 8, 4);
      return done<T>(std::move(c), k);
    }
    default: {
      using T = WrMany;
      c.name = "WrMany";
      const Cls *p = get(Pair);
      for (int i = 0; i < 35; i++)
        add(c, ("x" + std::to_string(i)).c_str(), U, i, 1);
      of(add(c, "pair", R::Class, offsetof(T, pair), sizeof(T::pair)), p);
      return done<T>(std::move(c), k);
    }
    }
  }

  const Cls *top(unsigned depth, const Opt &o) {
    std::vector<int> may;
    if (o.flags && o.enums && !o.nested) // it has no hash
      may.push_back(Bare);
    if (o.strings && o.flags && o.enums)
      may.push_back(Mixed);
    if (depth && o.classes)
      may.push_back(Many);
    if (depth && o.classes && o.bits && o.enums)
      may.push_back(Nest);
    if (may.empty())
      return nullptr;
    int k = may[work(may.size())];
    // each at most once, so that names stay apart
    return w.writtenCls[k] ? nullptr : get(k);
  }
};

inline Cls *World::written(unsigned depth, const Opt &o) {
  mem::NoFail nf;
  return const_cast<Cls *>(Written(*this).top(depth, o));
}
} // namespace rg
