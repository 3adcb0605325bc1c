// C23: reflected objects through XML documents kept in files; C24: the same
// from damaged documents and with failing allocations; C25: the file layer
// for XML documents under faults.
#include "refltext.hpp"
#include "../sim/fs.hpp"
#include "datas/pugiex.hpp"
#include "datas/reflector_xml.hpp"
#include <algorithm>
#include <functional>
#include <sstream>

using namespace sim;
using namespace rg;

namespace {
struct Setup {
  Setup() {
    at_reset(forget);
    pugi::set_memory_management_functions(mem::xml_alloc, mem::xml_free);
  }
} g_setup;

using Dump = std::vector<std::pair<std::string, std::string>>;

// Fields an object has before it is loaded: zero, or values as above.
void fill_before(Obj &o) {
  if (work(2)) {
    fill_text(o);
    return;
  }
  Obj::each(o.c, o.p, [&](const Member &x, char *at, const std::string &) {
    if (x.kind != REFType::String)
      memset(at, 0, x.stride);
  });
  Obj::each(o.c, o.p, [&](const Member &x, char *at, const std::string &) {
    if (x.kind == REFType::Enum)
      memcpy(at, &x.en->values[0], x.stride);
  });
}

uint64 bit_mask(const Cls *c) {
  uint64 m = 0;
  for (auto &b : c->m)
    m |= (~0ull >> (64 - b.t.subSize)) << b.t.offset;
  return m;
}
// One member (all its elements) out of object bytes at `base`.
Dump part(const Member &x, char *base) {
  Cls one;
  one.m.push_back(x);
  Dump r;
  Obj::each(&one, base, [&](const Member &e, char *at, const std::string &n) {
    std::string v;
    if (e.kind == REFType::String) {
      v = *(std::string *)at;
    } else if (e.kind == REFType::BitFieldClass) {
      uint64 b = 0;
      memcpy(&b, at, e.stride);
      b &= bit_mask(e.sub);
      v.assign((char *)&b, e.stride);
    } else {
      v.assign(at, e.stride);
    }
    r.emplace_back(n, v);
  });
  return r;
}
std::vector<Dump> parts(const Obj &o) {
  std::vector<Dump> r;
  for (auto &x : o.c->m)
    r.push_back(part(x, o.p));
  return r;
}
// bits of bit fields that belong to no member
std::vector<uint64> spare_bits(const Obj &o) {
  std::vector<uint64> r;
  Obj::each(o.c, o.p, [&](const Member &x, char *at, const std::string &) {
    if (x.kind == REFType::BitFieldClass) {
      uint64 b = 0;
      memcpy(&b, at, x.stride);
      r.push_back(b & ~bit_mask(x.sub));
    }
  });
  return r;
}
void same(const Dump &want, const Dump &got, const char *what) {
  for (size_t i = 0; i < want.size(); i++)
    SIM_CHECK(want[i].second == got[i].second, "value",
              "%s: %s is %s, expected %s", what, got[i].first.c_str(),
              hex(got[i].second).c_str(), hex(want[i].second).c_str());
}

enum Format { V1, V2, V2A };

std::string node_name(const Cls *c, const Member &x) {
  if (c->names)
    return x.name;
  char b[32];
  snprintf(b, sizeof b, "h:%X", hash_of(x.name).raw());
  return b;
}
bool names_member(const char *n, const std::string &m) {
  return !strncmp(n, m.c_str(), m.size()) &&
         (!n[m.size()] || n[m.size()] == '-');
}
// the nodes below a class's node that hold objects of nested classes
void nested(pugi::xml_node n, const Cls *c, Format f,
            std::function<void(pugi::xml_node, const Cls *)> fn) {
  for (auto &x : c->m) {
    if (!x.sub)
      continue;
    std::string name = node_name(c, x);
    for (auto e : n.children()) {
      if (!names_member(e.name(), name))
        continue;
      if (f == V1 && x.array) {
        for (auto i : e.children())
          fn(i, x.sub);
      } else {
        fn(e, x.sub);
      }
    }
  }
}

const char *some_word() {
  static const char *w[] = {"zz", "h:1234", "zz-1", "i:0", "zz-", "x", "_"};
  return w[work(7)];
}
// Something a class does not know.
void add_unknown(pugi::xml_node n, bool mixed) {
  static unsigned k;
  auto place = [&](pugi::xml_node_type t) {
    return work(2) ? n.prepend_child(t) : n.append_child(t);
  };
  (void)k;
  switch (work(mixed ? 6 : 3)) {
  case 0: {
    auto e = place(pugi::node_element);
    e.set_name(some_word());
    if (work(2))
      e.append_attribute("x").set_value("1");
    if (work(2))
      e.append_child("y").text().set("5");
    if (work(2))
      e.text().set("7");
    break;
  }
  case 1: {
    auto a = work(2) ? n.prepend_attribute(some_word())
                     : n.append_attribute(some_word());
    a.set_value("3");
    break;
  }
  case 2: {
    auto e = place(pugi::node_element);
    e.set_name("zz");
    break;
  }
  case 3:
    place(pugi::node_comment).set_value("5");
    break;
  case 4: {
    auto e = place(pugi::node_pi);
    e.set_name("pi");
    e.set_value("4");
    break;
  }
  default:
    place(work(2) ? pugi::node_pcdata : pugi::node_cdata).set_value("17");
  }
}
// Edits that keep every value: other order, unknown things in between.
void decorate(pugi::xml_node n, const Cls *c, Format f) {
  nested(n, c, f, [&](pugi::xml_node e, const Cls *s) { decorate(e, s, f); });
  if (f == V1)
    for (auto &x : c->m)
      if (x.sub && x.array && work(3) == 2)
        add_unknown(n.child(node_name(c, x).c_str()), true);
  for (size_t k = work(4); k; k--) {
    if (work(2)) {
      size_t cnt = std::distance(n.children().begin(), n.children().end());
      if (cnt > 1) {
        auto it = n.children().begin();
        std::advance(it, work(cnt));
        n.append_move(*it);
      }
    } else {
      add_unknown(n, true);
    }
  }
}
// Takes a member out; returns whether there was something.
void take_out(pugi::xml_node n, const std::string &name) {
  for (bool more = true; more;) {
    more = false;
    for (auto a : n.attributes())
      if (names_member(a.name(), name)) {
        n.remove_attribute(a);
        more = true;
        break;
      }
    for (auto e : n.children())
      if (!more && names_member(e.name(), name)) {
        n.remove_child(e);
        more = true;
        break;
      }
  }
}

pugi::xml_node save(const Obj &o, pugi::xml_node where, Format f, bool cls) {
  ReflectedInstance in = o.inst();
  ReflectorPureWrap rw(in);
  switch (f) {
  case V1:
    return ReflectorXMLUtil::Save(rw, where, cls);
  case V2:
    return ReflectorXMLUtil::SaveV2(rw, where, cls);
  default: {
    ReflectorXMLUtil::flag_type fl;
    fl.Set(ReflectorXMLUtil::Flags_ClassNode, cls);
    fl.Set(ReflectorXMLUtil::Flags_StringAsAttribute, true);
    return ReflectorXMLUtil::SaveV2a(rw, where, fl);
  }
  }
}
pugi::xml_node load(Obj &o, pugi::xml_node where, Format f, bool cls) {
  ReflectedInstance in = o.inst();
  ReflectorPureWrap rw(in);
  return f == V1 ? ReflectorXMLUtil::Load(rw, where, cls)
                 : ReflectorXMLUtil::LoadV2(rw, where, cls);
}
std::string class_node_name(const Cls *c) {
  if (c->names)
    return c->name;
  char b[32];
  snprintf(b, sizeof b, "h:%X", c->hash.raw());
  return b;
}

struct Style {
  XMLFormatFlags fmt;
  XMLEncoding enc = XMLEncoding::Auto, readEnc = XMLEncoding::Auto;
  XMLParseFlags parse = XMLDefaultParseFlags;
  const char *indent = "\t";
};
Style some_style() {
  Style s;
  s.fmt = XMLDefaultFormatFlags;
  switch (work(6)) {
  case 1:
    s.fmt = XMLFormatFlags(XMLFormatFlag::Raw);
    break;
  case 2:
    s.fmt += XMLFormatFlag::IndentAttributes;
    break;
  case 3:
    s.fmt += XMLFormatFlag::NoEmptyElementTaggs;
    break;
  case 4:
    s.fmt = XMLFormatFlags(XMLFormatFlag::WriteBOM, XMLFormatFlag::NoDeclaration);
    break;
  case 5:
    s.indent = work(2) ? "" : "    ";
    break;
  }
  if (work(3) == 2) {
    static const XMLEncoding e[] = {XMLEncoding::UTF8, XMLEncoding::UTF16_LE,
                                    XMLEncoding::UTF16_BE, XMLEncoding::UFT16,
                                    XMLEncoding::UTF32_LE, XMLEncoding::UTF32_be,
                                    XMLEncoding::UTF32, XMLEncoding::Wchar};
    s.enc = e[work(8)];
    if (work(2))
      s.readEnc = s.enc;
    else
      s.fmt += XMLFormatFlag::WriteBOM;
  }
  if (work(2)) {
    static const XMLParseFlag fl[] = {
        XMLParseFlag::Comments, XMLParseFlag::PI, XMLParseFlag::WhiteSpacePCDATA,
        XMLParseFlag::Declaration, XMLParseFlag::DocType,
        XMLParseFlag::EmbedPCDATA, XMLParseFlag::Fragment};
    for (size_t n = 1 + work(4); n; n--)
      s.parse += fl[work(7)];
  }
  return s;
}
std::string render(const pugi::xml_document &d, const Style &s) {
  mem::NoFail nf;
  struct W : pugi::xml_writer {
    std::string r;
    void write(const void *p, size_t n) override { r.append((const char *)p, n); }
  } w;
  d.save(w, s.indent, static_cast<uint32>(s.fmt), (pugi::xml_encoding)s.enc);
  return w.r;
}

struct Item {
  std::unique_ptr<Obj> o;
  std::vector<Dump> stored;
  std::string box; // name of the node around it, empty: none
  Format f = V1;
  bool cls = true;
  std::vector<bool> gone;
};

// ------------------------------------------------------------------- C23

void c23() {
  World w;
  Opt o;
  o.maxMembers = 7;
  std::vector<Item> items(1 + work(3));
  pugi::xml_document doc;
  std::vector<const Cls *> used;
  pugi::xml_node root = doc.append_child("root");
  for (auto &it : items) {
    const Cls *c = w.make_class(2, o);
    it.o.reset(new Obj(c));
    fill_text(*it.o);
    it.f = (Format)work(3);
    it.cls = work(4) != 3;
    it.stored = parts(*it.o);
    it.gone.assign(c->m.size(), false);
    auto where = root;
    if (!it.cls || work(2)) {
      it.box = w.id("box");
      where = root.append_child(it.box.c_str());
      where.append_attribute("keep").set_value("1");
    }
    Dump before = it.o->dump();
    auto sp = spare_bits(*it.o);
    pugi::xml_node n = save(*it.o, where, it.f, it.cls);
    ev("save %s as %d in %s, %zu members", c->name.c_str(), it.f,
       it.box.c_str(), c->m.size());
    same(before, it.o->dump(), "saving changed the object");
    it.o->check_padding("Save");
    SIM_CHECK(it.cls ? n.parent() == where : n == where, "node",
              "Save did not return the node of the object");
    SIM_CHECK(!it.cls || class_node_name(c) == n.name(), "node",
              "the class node is named %s instead of %s", n.name(),
              class_node_name(c).c_str());
    SIM_CHECK(it.box.empty() || where.attribute("keep").as_int() == 1, "node",
              "Save changed something else in the document");
    // edited by somebody else
    if (work(2))
      decorate(n, c, it.f);
    if (it.cls && work(4) == 3) { // one of that name further down
      auto wrap = work(2) ? where.prepend_child("wrap") : where.append_child("wrap");
      wrap.append_copy(n);
    }
    for (size_t i = 0; i < c->m.size(); i++)
      if (work(8) == 7) {
        take_out(n, node_name(c, c->m[i]));
        it.gone[i] = true;
        ev("%s taken out", c->m[i].name.c_str());
      }
  }
  // through a file
  Style st = some_style();
  fs::Cfg cfg;
  if (draw(FAULT, 2))
    cfg.shortIo = 1 + draw(FAULT, 600);
  fs::begin(cfg);
  pugi::xml_document again;
  std::string err;
  try {
    XMLToFile("/o.xml", doc, st.fmt, st.indent, st.enc);
    again = XMLFromFile("/o.xml", st.parse, st.readEnc);
  } catch (const std::exception &e) {
    err = e.what();
  }
  SIM_CHECK(err.empty(), "refused", "a document was not stored and read: %s",
            err.c_str());
  SIM_CHECK(fs::open_handles() == 0, "leak", "a file was left open");
  fs::end();
  {
    Style show;
    show.fmt = XMLFormatFlags(XMLFormatFlag::Raw);
    std::string text = render(again, show);
    ev("read back: %.1500s", text.c_str());
  }
  pugi::xml_node top = again.child("root");
  for (auto &it : items) {
    auto where = it.box.empty() ? top : top.child(it.box.c_str());
    SIM_CHECK(where, "node", "a node is missing in the stored document");
    const Cls *src = it.o->c;
    Evolved ev_;
    ev_.cls = src;
    for (size_t i = 0; i < src->m.size(); i++)
      ev_.from.push_back(i);
    unsigned how = work(4);
    if (how == 2 && it.cls) { // a class that is not there
      const Cls *other = w.make_class(1, o);
      Obj t(other);
      fill_before(t);
      if (work(2))
        where.append_child("wrap").append_child(class_node_name(other).c_str())
            .append_attribute("a").set_value("1");
      Dump before = t.dump();
      pugi::xml_node n = load(t, where, it.f, true);
      SIM_CHECK(!n, "node", "a node was found for a class that is not there");
      same(before, t.dump(), "loading what is not there");
    }
    if (how == 3)
      ev_ = evolve(w, src);
    Obj t(ev_.cls);
    fill_before(t);
    auto before = parts(t);
    auto sp = spare_bits(t);
    pugi::xml_node n = load(t, where, it.f, it.cls);
    ev("load %s%s", src->name.c_str(), how == 3 ? ", changed meanwhile" : "");
    SIM_CHECK(it.cls ? n.parent() == where && class_node_name(src) == n.name()
                     : n == where,
              "node", "Load did not return the node of the object");
    auto got = parts(t);
    for (size_t i = 0; i < ev_.from.size(); i++) {
      int from = ev_.from[i];
      bool there = from >= 0 && !it.gone[from];
      same(there ? it.stored[from] : before[i], got[i],
           there ? "a stored member" : "a member that is not in the document");
    }
    SIM_CHECK(sp == spare_bits(t), "stray",
              "loading changed bits that belong to no bit field member");
    t.check_padding("Load");
  }
}
SIM_PROP_BATCH("C23", c23);

// ------------------------------------------------------------------- C24

const char *bad_value() {
  static const char *v[] = {
      "", "{", "}", "{}", "{,}", "{1,2,,,,}", "[", "[1, 2, 3, 4, 5, 6]", "[1]",
      "}{", "]1[", "-", "--1", "0x", "0xfffffffffffffffff",
      "99999999999999999999999", "-99999999999999999999", "1e999", "-1e999",
      "1e-999", "nan", "true", "TRUE ", "t", "NULL", "|", "||", "E0|E0|", "E",
      "{a, b, c, d, e, f, g, h, i, j}", "{true,true,true,true,true,true}",
      "{[1, 2], [3, 4, 5, 6, 7], [8]}", "{[,,,,], [}", "(1)", "\"", "{\"}",
      "{'}", "{((((}", "{,,,,,,,,}", "   ", "\xff\xfe", "1,2,3", "h:", "5"};
  return v[work(sizeof v / sizeof *v)];
}
const char *bad_index() {
  static const char *v[] = {"-", "-1", "--1", "-5", "-250", "-65536",
                            "-4294967295", "-99999999999999999999", "-x",
                            "-0x1", "-2-3", "-4294967296", "-4294967297",
                            "-18446744073709551616", "-18446744073709551617",
                            "-0", "-00", "-2147483648", "- 1", "-1 "};
  return v[work(sizeof v / sizeof *v)];
}

// All nodes that belong to one member of one class node.
struct Target {
  pugi::xml_node in;
  pugi::xml_attribute a; // or
  pugi::xml_node e;
};
void damage_node(const Target &t, const std::string &name, Format f) {
  pugi::xml_node in = t.in;
  if (t.a) {
    auto a = t.a;
    switch (work(4)) {
    case 0:
      a.set_value(bad_value());
      break;
    case 1:
      a.set_name((name + bad_index()).c_str());
      break;
    case 2: { // as an element
      auto e = in.append_child(a.name());
      e.text().set(work(2) ? a.value() : bad_value());
      if (work(2))
        e.append_attribute(some_word()).set_value(bad_value());
      break;
    }
    default:
      in.append_attribute((name + bad_index()).c_str()).set_value(bad_value());
    }
    return;
  }
  auto e = t.e;
  auto sub = e;
  while (work(2) && sub.first_child() && sub.first_child().type() == pugi::node_element)
    sub = sub.first_child();
  switch (work(9)) {
  case 0:
    sub.text().set(bad_value());
    break;
  case 1:
    e.set_name((name + bad_index()).c_str());
    break;
  case 2:
    in.append_attribute((name + (work(2) ? "" : bad_index())).c_str())
        .set_value(bad_value());
    break;
  case 3: {
    static const char *ax[] = {"w", "z", "q", "", "x", "yy", "E0"};
    auto a = sub.append_attribute(ax[work(7)]);
    a.set_value(bad_value());
    break;
  }
  case 4:
    sub.remove_attributes();
    break;
  case 5:
    for (auto a : sub.attributes())
      if (work(2))
        a.set_value(bad_value());
    break;
  case 6: {
    static const char *nm[] = {"i:", "i:-1", "i:9", "i", "", "i:99999999999",
                               "i:65536", "x", "i:0x", "-1"};
    auto c = e.append_child(nm[work(10)]);
    if (work(2))
      c.text().set(bad_value());
    if (c != e.first_child())
      for (auto x : e.first_child().children())
        c.append_copy(x);
    break;
  }
  case 7: {
    auto c = in.append_child((name + bad_index()).c_str());
    for (auto x : e.children())
      c.append_copy(x);
    for (auto x : e.attributes())
      c.append_copy(x);
    break;
  }
  default:
    for (auto c : e.children())
      if (work(2))
        c.set_name((work(2) ? std::string("i:") + bad_index()
                            : name + bad_index()).c_str());
  }
  (void)f;
}

// An item past the end of an array.
void add_item(pugi::xml_node n, const Cls *c, const Member &x, Format f) {
  if (!x.array || x.kind == REFType::String)
    return;
  static const char *big[] = {
      "65535",      "65536",      "4294967295", "4294967296",
      "4294967297", "8589934592", "2147483648", "9223372036854775807",
      "9223372036854775808", "18446744073709551616", "18446744073709551617",
      "99999999999999999999999"};
  std::string at = work(3) ? big[work(12)]
                           : std::to_string(x.count + work(3) * 256 + work(4)),
              name = node_name(c, x);
  if (f == V1) {
    auto e = n.child(name.c_str());
    if (!x.sub || !e)
      return;
    auto first = e.first_child();
    auto i = first && work(2) ? e.insert_child_before(("i:" + at).c_str(), first)
                              : e.append_child(("i:" + at).c_str());
    for (auto y : (first ? first : i).children())
      i.append_copy(y);
    ev("item %s of %s", at.c_str(), name.c_str());
    return;
  }
  std::string item = name + "-" + at;
  ev("item %s", item.c_str());
  auto a = n.attribute((name + "-0").c_str());
  auto e = n.child((name + "-0").c_str());
  if (a) {
    (work(2) ? n.append_attribute(item.c_str()) : n.prepend_attribute(item.c_str()))
        .set_value(a.value());
  } else if (e) {
    auto i = work(2) ? n.append_copy(e) : n.prepend_copy(e);
    i.set_name(item.c_str());
  }
}

bool valid_leaf(const Member &x, char *at, const std::string &before) {
  switch (x.kind) {
  case REFType::Bool:
    return (unsigned char)*at < 2;
  case REFType::Enum: {
    if (std::string(at, x.stride) == before)
      return true;
    for (uint64 v : x.en->values)
      if (!memcmp(at, &v, x.stride))
        return true;
    return false;
  }
  case REFType::EnumFlags: {
    uint64 v = 0, m = 0;
    memcpy(&v, at, x.stride);
    for (uint64 b : x.en->values)
      m |= b < 64 ? 1ull << b : 0;
    return !(v & ~m);
  }
  default:
    return true;
  }
}

void c24() {
  World w;
  Opt o;
  o.maxMembers = 6;
  const Cls *c = w.make_class(2, o);
  Obj src(c);
  fill_text(src);
  auto stored = parts(src);
  Format f = (Format)work(3);
  pugi::xml_document doc;
  std::string err;
  bool oom = draw(FAULT, 5) == 4;
  if (oom) { // while saving
    if (draw(FAULT, 3) == 2) { // the document is about to need a further page
      mem::NoFail nf;
      auto pad = doc.append_child("pad");
      for (size_t left = 32700 - draw(FAULT, 2500); left;) {
        size_t n = std::min<size_t>(left, 4000);
        pad.append_attribute("p").set_value(std::string(n, 'p').c_str());
        left -= n;
      }
      mem::fail_at(1, 16000);
    } else {
      mem::fail_at(1 + draw(FAULT, 40));
    }
    bool threw = false;
    try {
      save(src, doc, f, true);
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    bool fired = mem::fired();
    mem::off();
    ev("save with a failing allocation: %d %d", fired, threw);
    SIM_CHECK(fired || !threw, "report", "saving failed without a reason");
    src.check_padding("Save");
    if (fired && !threw) {
      // then nothing may be missing
      Obj t(c);
      fill_before(t);
      load(t, doc, f, true);
      auto got = parts(t);
      for (size_t i = 0; i < stored.size(); i++)
        same(stored[i], got[i], "saved without an error while an allocation failed");
    }
    doc.reset();
  }
  pugi::xml_node n = save(src, doc, f, true);
  Obj t(c);
  fill_before(t);
  auto before = parts(t);
  Dump leaves = t.dump();
  auto sp = spare_bits(t);
  Format lf = work(6) == 5 ? (f == V1 ? V2 : V1) : f;
  std::vector<bool> hit(c->m.size(), false);
  bool wild = false;
  unsigned how = work(5);
  if (how == 4) { // items that do not exist
    for (size_t k = 1 + work(3); k && c->m.size(); k--)
      add_item(n, c, c->m[work(c->m.size())], f);
  } else if (how <= 1 && c->m.size()) {
    for (size_t k = 1 + work(3); k; k--) {
      size_t i = work(c->m.size());
      std::string name = node_name(c, c->m[i]);
      std::vector<Target> all;
      for (auto a : n.attributes())
        if (names_member(a.name(), name))
          all.push_back({n, a, {}});
      for (auto e : n.children())
        if (names_member(e.name(), name))
          all.push_back({n, {}, e});
      if (all.empty())
        continue;
      hit[i] = true;
      damage_node(all[work(all.size())], name, f);
      ev("damage %s", name.c_str());
    }
  } else if (how == 2) { // any node anywhere
    wild = true;
    std::vector<pugi::xml_node> all;
    std::function<void(pugi::xml_node)> walk = [&](pugi::xml_node x) {
      all.push_back(x);
      for (auto y : x.children())
        walk(y);
    };
    walk(n);
    for (size_t k = 1 + work(4); k; k--) {
      auto x = all[work(all.size())], y = all[work(all.size())];
      switch (work(5)) {
      case 0:
        if (x != n)
          x.set_name(y.name());
        break;
      case 1:
        x.append_copy(y);
        break;
      case 2:
        add_unknown(x, true);
        break;
      case 3:
        if (x != y)
          for (auto a : y.attributes())
            x.append_copy(a);
        break;
      default: {
        size_t cn = c->m.empty() ? 0 : work(c->m.size());
        auto e = x.append_child(c->m.empty() ? "q" : node_name(c, c->m[cn]).c_str());
        if (work(2))
          e.append_attribute(work(2) ? "x" : "E0").set_value(bad_value());
        if (work(2))
          e.text().set(bad_value());
      }
      }
    }
  } else if (how == 3) { // bytes of the text
    wild = true;
    Style s;
    s.fmt = XMLDefaultFormatFlags;
    std::string text = render(doc, s);
    for (size_t k = 1 + draw(FAULT, 4); k; k--)
      if (text.size()) {
        size_t at = draw(FAULT, text.size());
        switch (draw(FAULT, 4)) {
        case 0:
          text.resize(at);
          break;
        case 1:
          text[at] = "<>/\"= &;-\0x"[draw(FAULT, 11)];
          break;
        case 2:
          text.insert(at, bad_value());
          break;
        default:
          text.erase(at, 1 + draw(FAULT, 9));
        }
      }
    count("fault.corrupted_document");
    doc.reset();
    mem::NoFail nf;
    doc.load_buffer(text.data(), text.size());
    n = doc.child(class_node_name(c).c_str());
  }
  if (how != 3)
    count("fault.damaged_document");
  {
    Style show;
    show.fmt = XMLFormatFlags(XMLFormatFlag::Raw);
    std::string text = render(doc, show);
    ev("document: %.1500s", text.c_str());
    uint64_t h = 0;
    for (char ch : text)
      h = h * 31 + (unsigned char)ch;
    shape(h);
  }
  bool threw = false, failing = draw(FAULT, 4) == 3;
  if (failing)
    mem::fail_at(1 + draw(FAULT, 60));
  try {
    load(t, doc, lf, true);
  } catch (const std::bad_alloc &) {
    threw = true;
  } catch (const std::exception &e) {
    mem::off();
    fail("report", "loading a damaged document threw: %s", e.what());
  }
  bool fired = failing && mem::fired();
  mem::off();
  ev("load as %d: %s", lf, threw ? "out of memory" : "done");
  SIM_CHECK(!threw || fired || mem::refused(), "report",
            "loading ran out of memory without a reason");
  t.check_padding("loading a damaged document");
  SIM_CHECK(sp == spare_bits(t), "stray",
            "loading changed bits that belong to no bit field member");
  size_t li = 0;
  Obj::each(t.c, t.p, [&](const Member &x, char *at, const std::string &p) {
    SIM_CHECK(valid_leaf(x, at, leaves[li].second), "value",
              "%s holds %s after loading a damaged document", p.c_str(),
              hex(std::string(at, x.stride)).c_str());
    li++;
  });
  // the damage stays where it is
  if (!wild && !fired && lf == f) {
    auto got = parts(t);
    for (size_t i = 0; i < hit.size(); i++)
      if (!hit[i])
        same(stored[i], got[i], "a member next to a damaged one");
  }
  // and the object can be loaded again
  doc.reset();
  save(src, doc, f, true);
  load(t, doc, f, true);
  auto got = parts(t);
  for (size_t i = 0; i < stored.size(); i++)
    same(stored[i], got[i], "loaded again");
}
SIM_PROP_BATCH("C24", c24);

// ------------------------------------------------------------------- C25

void some_tree(pugi::xml_node n, unsigned depth) {
  for (size_t k = work(5); k; k--) {
    auto e = n.append_child(("n" + std::to_string(work(30))).c_str());
    if (work(2))
      e.append_attribute("a").set_value(some_text(false).c_str());
    if (work(3) == 2)
      e.text().set(some_text(false).c_str());
    else if (depth)
      some_tree(e, depth - 1);
  }
}

// The children of a node, all or those of one name.
void check_children(pugi::xml_node n) {
  std::vector<pugi::xml_node> all;
  for (pugi::xml_node k = n.first_child(); k; k = k.next_sibling())
    all.push_back(k);
  SIM_CHECK(XMLCollectChildren(n) == all, "children",
            "XMLCollectChildren finds other children of \"%s\"", n.name());
  for (auto c : all) {
    check_children(c);
    const std::string name = c.name();
    if (name.empty())
      continue;
    std::vector<pugi::xml_node> same;
    for (auto k : all)
      if (name == k.name())
        same.push_back(k);
    SIM_CHECK(XMLCollectChildren(n, name) == same, "children",
              "XMLCollectChildren finds other children named \"%s\"", name.c_str());
  }
  SIM_CHECK(XMLCollectChildren(n, "no such name").empty(), "children",
            "XMLCollectChildren finds a child nobody made");
}

void c25_read() {
  fs::Cfg cfg;
  if (draw(FAULT, 2))
    cfg.shortIo = 1 + draw(FAULT, 600);
  int kind = draw(FAULT, 6);
  if (kind == 1)
    cfg.openErr = 512;
  if (kind == 2)
    cfg.readErr = 200 + draw(FAULT, 600);
  if (kind == 3)
    cfg.statErr = 512;
  if (kind == 4)
    cfg.eintr = 100 + draw(FAULT, 600);
  std::string data;
  Style st = some_style();
  {
    pugi::xml_document d;
    some_tree(d.append_child("root"), 3);
    data = render(d, st);
  }
  switch (work(7)) {
  case 1:
    data.resize(work(data.size() + 1));
    break;
  case 2:
    data = "";
    break;
  case 3: {
    static const char *odd[] = {" ", "<", "text only", "<!-- c -->", "<?xml?>",
                                "<a><b></a>", "<a></a></a>", "<a b=1/>",
                                "<a>&amp", "<![CDATA[x", "\xef\xbb\xbf", "<a>",
                                "<?xml version='1.0'?>\n"};
    data = odd[work(13)];
    break;
  }
  case 4:
    for (size_t k = 1 + work(3); k && data.size(); k--)
      data[work(data.size())] = "<>/\"= &;-\0x"[work(11)];
  }
  fs::begin(cfg);
  unsigned object = work(12);
  if (object == 11)
    fs::make_dir("/f.xml");
  else if (object != 10)
    fs::put("/f.xml", data);
  if (object == 9) {
    fs::put("/real.xml", data);
    fs::remove_("/f.xml");
    fs::make_link("/f.xml", "/real.xml");
  }
  bool denied = object == 8;
  if (denied)
    fs::deny("/f.xml", true);
  bool there = object < 10 && !denied;
  // what the text means, whatever the medium does
  pugi::xml_document want;
  pugi::xml_parse_result wr;
  {
    mem::NoFail nf;
    wr = want.load_buffer(data.data(), data.size(), static_cast<uint32>(st.parse),
                          (pugi::xml_encoding)st.readEnc);
  }
  bool oom = draw(FAULT, 5) == 4;
  for (int tries = 0; tries < 2; tries++) {
    uint64_t hard0 = fs::fired().hard() + fs::fired().eintr;
    if (oom)
      mem::fail_at(1 + draw(FAULT, 12));
    enum { DOC, NOT_FOUND, EMPTY, OTHER, NOMEM } out = DOC;
    std::string what;
    std::unique_ptr<pugi::xml_document> got;
    try {
      auto d = XMLFromFile("/f.xml", st.parse, st.readEnc);
      mem::NoFail nf;
      got.reset(new pugi::xml_document(std::move(d)));
    } catch (const es::FileNotFoundError &e) {
      out = NOT_FOUND;
      mem::NoFail nf;
      what = e.what();
    } catch (const es::InvalidHeaderError &) {
      out = EMPTY;
    } catch (const std::bad_alloc &) {
      out = NOMEM;
    } catch (const std::runtime_error &e) {
      out = OTHER;
      mem::NoFail nf;
      what = e.what();
    }
    bool nomem = oom && mem::fired();
    mem::off();
    bool fault = fs::fired().hard() + fs::fired().eintr != hard0;
    ev("XMLFromFile: %d %s (fault %d, memory %d)", out, what.c_str(), fault, nomem);
    SIM_CHECK(fs::open_handles() == 0, "leak", "a file was left open");
    if (out == DOC) {
      SIM_CHECK(there, "report", "a file that cannot be read gave a document");
      SIM_CHECK(wr, "report", "a document that is not well-formed was accepted");
      SIM_CHECK(!nomem, "report", "a failed allocation gave a document");
      Style p;
      p.fmt = XMLFormatFlags(XMLFormatFlag::Raw);
      SIM_CHECK(render(*got, p) == render(want, p), "content",
                "the document is not what the file holds");
      mem::NoFail nf;
      check_children(*got);
    } else if (!fault && !nomem) {
      SIM_CHECK(out != NOMEM, "report", "no memory, but none was refused");
      SIM_CHECK(out == NOT_FOUND || there || object == 11, "report",
                "a missing file was not reported as missing");
      SIM_CHECK(out != NOT_FOUND || !there, "report",
                "an existing file was reported as missing");
      if (there) {
        SIM_CHECK(!wr, "report", "a good document was refused: %s", what.c_str());
        bool none = wr.status == pugi::status_no_document_element;
        SIM_CHECK((out == EMPTY) == none, "report",
                  "a document %s was reported as %s",
                  none ? "without an element" : "with a syntax error",
                  none ? what.c_str() : "empty");
        if (out == OTHER) {
          SIM_CHECK(what.find("offset " + std::to_string(wr.offset)) !=
                        what.npos, "report",
                    "the error does not tell where: %s", what.c_str());
          static const char *const kinds[] = {
              "unrecognized_tag", "bad_pi",         "bad_comment",
              "bad_cdata",        "bad_doctype",    "bad_pcdata",
              "bad_start_element", "bad_attribute", "bad_end_element",
              "end_element_mismatch"};
          const int k = wr.status - pugi::status_unrecognized_tag;
          SIM_CHECK(k < 0 || k > 9 || what.find(kinds[k]) != what.npos, "report",
                    "the error does not tell it is %s: %s", kinds[k], what.c_str());
        }
      }
    }
    // not even when it cannot be read
    if (out == EMPTY)
      SIM_CHECK(there && wr.status == pugi::status_no_document_element, "report",
                "a file was reported as a document without an element, but that "
                "is not what it holds");
    if (out == NOT_FOUND || out == OTHER)
      SIM_CHECK(what.find("/f.xml") != what.npos, "report",
                "the error does not name the file: %s", what.c_str());
    // once more on a healthy machine
    fs::cfg() = fs::Cfg();
    oom = false;
  }
  fs::end();
}

void c25_write() {
  fs::Cfg cfg;
  if (draw(FAULT, 2))
    cfg.shortIo = 1 + draw(FAULT, 600);
  int kind = draw(FAULT, 7);
  if (kind == 1)
    cfg.openErr = 512;
  if (kind == 2)
    cfg.writeErr = 200 + draw(FAULT, 600);
  if (kind == 3)
    cfg.diskLimit = draw(FAULT, 9000);
  if (kind == 4)
    cfg.eintr = 100 + draw(FAULT, 600);
  if (kind == 5)
    cfg.closeErr = 512;
  if (kind == 6)
    cfg.crashAt = 1 + draw(FAULT, 8);
  Style st = some_style();
  pugi::xml_document d;
  some_tree(d.append_child("root"), 3);
  std::string want = render(d, st), old = work(2) ? "<old/>" : "";
  uint64_t limit = cfg.diskLimit, crash = cfg.crashAt;
  cfg.diskLimit = ~0ull;
  cfg.crashAt = 0;
  fs::begin(cfg);
  std::string path = "/d/f.xml";
  unsigned object = work(10);
  if (object != 9)
    fs::make_dir("/d");
  if (object == 8)
    fs::make_dir(path);
  else if (object != 9 && old.size())
    fs::put(path, old);
  if (object == 7 && old.size())
    fs::deny(path, true);
  bool can = object < 8 && !(object == 7 && old.size());
  fs::cfg().diskLimit = limit;
  fs::cfg().crashAt = crash ? fs::ops() + crash : 0;
  for (int tries = 0; tries < 2; tries++) {
    uint64_t hard0 = fs::fired().hard() + fs::fired().eintr;
    bool threw = false;
    std::string what;
    try {
      XMLToFile(path, d, st.fmt, st.indent, st.enc);
    } catch (const es::FileInvalidAccessError &e) {
      threw = true;
      what = e.what();
    }
    if (fs::crashed()) {
      fs::restart();
      std::string is = fs::type(path) == fs::FILE_ ? fs::get(path) : "";
      ev("crash: %zu of %zu bytes", is.size(), want.size());
      SIM_CHECK(is == old || !want.compare(0, is.size(), is), "content",
                "after a crash the file holds neither the old document nor a "
                "part of the new one");
      old = is;
    } else {
      bool fault = fs::fired().hard() + fs::fired().eintr != hard0;
      ev("XMLToFile: %s (fault %d)", threw ? what.c_str() : "done", fault);
      SIM_CHECK(fs::open_handles() == 0, "leak", "a file was left open");
      if (!threw) {
        SIM_CHECK(can, "report", "writing where one cannot write succeeded");
        SIM_CHECK(fs::type(path) == fs::FILE_ && fs::get(path) == want,
                  "content",
                  "a document was stored, but the file does not hold it");
      } else {
        SIM_CHECK(fault || !can, "report", "a document was not stored: %s",
                  what.c_str());
        SIM_CHECK(what.find(path) != what.npos, "report",
                  "the error does not name the file: %s", what.c_str());
      }
    }
    SIM_CHECK(render(d, st) == want, "content", "storing changed the document");
    fs::cfg() = fs::Cfg();
  }
  fs::end();
}
void c25() { work(2) ? c25_write() : c25_read(); }
SIM_PROP_BATCH("C25", c25);
} // namespace

