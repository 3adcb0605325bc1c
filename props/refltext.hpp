// Values of made-up classes that have a text form.
#pragma once
#include "reflgen.hpp"
#include <limits>

namespace rg {
// Text an XML document can carry: UTF-8, not beginning with white space.
inline std::string some_text(bool plain) {
  static const char *tok[] = {"a", "<", "&", "Z09", "\"", "'", " ", ">",
                              "&amp;", "]]>", "<b x='1'>", "\xc3\xa4",
                              "\xe2\x82\xac", "\n", "\t", "{", "}", ",", "|",
                              "[", "%", "\x01", "</m>", "<!--", "-", "&#65;",
                              "\xf0\x9f\x98\x80", "="};
  static const size_t len[] = {3, 0, 1, 15, 17, 60, 6000, 2};
  std::string s;
  size_t n = len[work(plain ? 4 : 8)];
  uint64_t k = work(1000), step = 1 + work(27);
  if (!n)
    return s;
  s = std::string(1, "xQ8."[k % 4]);
  for (size_t i = 1; i < n; i++)
    s += plain ? std::string(1, "abc z09_.:;"[(k + i * step) % 11])
               : std::string(tok[(k + i * step) % 28]);
  if (plain && work(6) == 5) { // commas within braces separate nothing
    static const char *in[] = {"(a, b)", "[1,2", "{x,,y", "\"one, two", "(,"};
    static const char *out[] = {"", "]", "}", "\"", ")"};
    size_t q = work(5);
    s.insert(k % (s.size() + 1), std::string(in[q]) + out[q]);
  }
  if (s.back() == ' ')
    s.back() = '.';
  return s;
}

template <class T> T some_float(const char *fmt) {
  char b[40];
  double v;
  switch (work(5)) {
  case 0:
    v = (double)work(100000);
    break;
  case 1:
    v = -(double)work(4000) / 16;
    break;
  case 2:
    v = std::numeric_limits<T>::infinity() * (work(2) ? 1 : -1);
    break;
  case 3:
    v = work(2) ? std::numeric_limits<T>::max() / 4
                : std::numeric_limits<T>::min() * 4;
    break;
  default:
    v = (double)(int64_t)draw_u64(WORK) / 977.0;
  }
  snprintf(b, sizeof b, fmt, (double)(T)v);
  return sizeof(T) == 4 ? (T)strtof(b, nullptr) : (T)strtod(b, nullptr);
}
inline void put_number(REFType t, size_t size, char *at) {
  if (t == REFType::FloatingPoint) {
    if (size == 4) {
      float f = some_float<float>("%.6g");
      memcpy(at, &f, 4);
    } else {
      double f = some_float<double>("%.13g");
      memcpy(at, &f, 8);
    }
  } else {
    uint64_t v = draw_u64(WORK);
    memcpy(at, &v, size);
  }
}
// Values with a text form.
inline void fill_text(Obj &o) {
  mem::NoFail nf;
  Obj::each(o.c, o.p, [&](const Member &x, char *at, const std::string &) {
    switch (x.kind) {
    case REFType::String:
      *(std::string *)at = some_text(x.array);
      break;
    case REFType::CString: {
      static const char *v[] = {"", "a", nullptr, "some text", "{1, 2}"};
      memcpy(at, &v[work(x.array ? 2 : 5)], sizeof(char *));
      break;
    }
    case REFType::Bool:
      *at = work(2);
      break;
    case REFType::Vector: {
      _DecomposedVectorHash d = {x.t.typeHash};
      for (size_t i = 0; i < d.numItems; i++)
        put_number(d.type, d.size, at + i * d.size);
      break;
    }
    case REFType::Enum: {
      uint64 v = x.en->values[work(x.en->values.size())];
      memcpy(at, &v, x.stride);
      break;
    }
    case REFType::EnumFlags: {
      uint64 v = 0;
      for (uint64 b : x.en->values)
        if (b < x.stride * 8 && work(2))
          v |= 1ull << b;
      memcpy(at, &v, x.stride);
      break;
    }
    default:
      put_number(x.kind, x.stride, at);
    }
  });
}
} // namespace rg
