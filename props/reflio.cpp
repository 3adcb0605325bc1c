// C14: reflected objects through ReflectorBinUtil; C15: the same from
// truncated, corrupted and failing media. C16: ReflectorIO databases;
// C17: those from truncated and failing media.
#include "reflgen.hpp"
#include "../sim/dev.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/master_printer.hpp"
#include "datas/reflector_io.hpp"

using namespace sim;
using namespace rg;

namespace {
struct ResetWorld {
  ResetWorld() { at_reset(forget); }
} g_resetWorld;

using Dump = std::vector<std::pair<std::string, std::string>>;

void same(const Dump &want, const Dump &got, const char *what) {
  for (size_t i = 0; i < want.size(); i++)
    SIM_CHECK(want[i].second == got[i].second, "value",
              "%s: %s is %s, expected %s", what, want[i].first.c_str(),
              hex(got[i].second).c_str(), hex(want[i].second).c_str());
}
Dump part(const Cls *c, const Obj &o, const Member &x) {
  Cls one;
  one.m.push_back(x);
  Dump r;
  Obj::each(&one, o.p, [&](const Member &e, char *at, const std::string &n) {
    r.emplace_back(n, e.kind == REFType::String ? *(std::string *)at
                                                : std::string(at, e.stride));
  });
  (void)c;
  return r;
}

struct Rec {
  std::unique_ptr<Obj> o;
  size_t begin = 0, end = 0;
};

void c14() {
  World w;
  Opt o;
  std::vector<const Cls *> cls;
  for (size_t n = 1 + work(2); n; n--)
    cls.push_back(w.make_class(2, o));
  Medium m;
  m.data = std::string(work(3) == 2 ? work(40) : 0, '#');
  const std::string front = m.data;
  const bool swapped = work(3) == 2;
  const bool big = work(400) == 399; // texts of more than 65535 characters
  std::vector<Rec> recs;
  {
    DevBuf buf(m, 16, (big ? 2000 : 1) + work(200));
    std::ostream os(&buf);
    BinWritterRef wr(os);
    wr.SwapEndian(swapped);
    wr.Seek(0, std::ios_base::end);
    if (work(4) == 3)
      wr.SetRelativeOrigin(wr.Tell());
    for (size_t n = 1 + work(3); n; n--) {
      recs.emplace_back();
      Rec &r = recs.back();
      r.o.reset(new Obj(cls[work(cls.size())]));
      r.o->fill(big);
      Dump before = r.o->dump();
      ReflectedInstance in = r.o->inst();
      ReflectorPureWrap rw(in);
      r.begin = os.tellp();
      int rv = ReflectorBinUtil::Save(rw, wr);
      r.end = os.tellp();
      SIM_CHECK(rv == 0, "refused", "Save of a storable class gave %d", rv);
      ev("save %s: %zu members, %zu..%zu", r.o->c->name.c_str(),
         r.o->c->m.size(), r.begin, r.end);
      same(before, r.o->dump(), "Save changed the object");
      r.o->check_padding("Save");
    }
    os.flush();
    SIM_CHECK(os.good(), "state", "the stream failed while saving");
  }
  SIM_CHECK(!m.data.compare(0, front.size(), front), "stray",
            "Save changed what was stored in front");
  DevBuf buf(m, (big ? 2000 : 1) + work(200), 16);
  std::istream is(&buf);
  BinReaderRef rd(is);
  rd.SwapEndian(swapped);
  size_t first = work(2) ? 0 : work(recs.size());
  is.seekg(recs[first].begin);
  for (size_t i = first; i < recs.size(); i++) {
    Rec &r = recs[i];
    unsigned how = work(5);
    if (how == 1) { // not this class
      const Cls *other = w.make_class(0, o);
      Obj t(other);
      t.fill();
      Dump before = t.dump();
      ReflectedInstance in = t.inst();
      ReflectorPureWrap rw(in);
      int rv = ReflectorBinUtil::Load(rw, rd);
      ev("load into another class: %d", rv);
      SIM_CHECK(rv != 0, "accepted", "an object was loaded into another class");
      same(before, t.dump(), "refused Load changed the object");
      t.check_padding("refused Load");
      SIM_CHECK((size_t)is.tellg() == r.begin, "position",
                "after a refused Load the stream is at %zu, not back at %zu",
                (size_t)is.tellg(), r.begin);
      is.clear();
      is.seekg(r.begin);
    }
    if (how == 4) { // a version of the class with one member more
      Cls n;
      n.name = r.o->c->name;
      n.hash = r.o->c->hash;
      n.m = r.o->c->m;
      n.m.push_back(w.make_member(0, o));
      World::place(n);
      w.classes.push_back(std::move(n));
      w.classes.back().seal();
      Obj t(&w.classes.back());
      t.fill();
      Dump before = t.dump();
      ReflectedInstance in = t.inst();
      ReflectorPureWrap rw(in);
      int rv = ReflectorBinUtil::Load(rw, rd);
      ev("load into a grown class: %d", rv);
      SIM_CHECK(rv != 0, "accepted",
                "an object was loaded into a class with another member count");
      same(before, t.dump(), "refused Load changed the object");
      t.check_padding("refused Load");
    } else if (how == 2) {
      Evolved e = evolve(w, r.o->c);
      Obj t(e.cls, 0xa7);
      t.fill();
      std::vector<Dump> before;
      for (auto &x : e.cls->m)
        before.push_back(part(e.cls, t, x));
      ReflectedInstance in = t.inst();
      ReflectorPureWrap rw(in);
      int rv = ReflectorBinUtil::Load(rw, rd);
      ev("load into another version: %d", rv);
      SIM_CHECK(rv == 0, "refused", "Load into another version gave %d", rv);
      for (size_t k = 0; k < e.from.size(); k++)
        same(e.from[k] < 0 ? before[k]
                           : part(r.o->c, *r.o, r.o->c->m[e.from[k]]),
             part(e.cls, t, e.cls->m[k]),
             e.from[k] < 0 ? "unknown member" : "member known by name or alias");
      t.check_padding("Load");
    } else {
      Obj t(r.o->c, 0xa7);
      t.fill();
      ReflectedInstance in = t.inst();
      ReflectorPureWrap rw(in);
      int rv = ReflectorBinUtil::Load(rw, rd);
      ev("load: %d", rv);
      SIM_CHECK(rv == 0, "refused", "Load of a saved object gave %d", rv);
      same(r.o->dump(), t.dump(), "loaded object");
      t.check_padding("Load");
    }
    SIM_CHECK(is.good() && (size_t)is.tellg() == r.end, "position",
              "after Load the stream is at %zd, the record ends at %zu",
              (ssize_t)is.tellg(), r.end);
  }
}
SIM_PROP_BATCH("C14", c14);

void c15() {
  World w;
  Opt o;
  Cls *c = w.make_class(2, o);
  Obj src(c);
  src.fill();
  Medium m;
  m.data = std::string(work(3) == 2 ? work(40) : 0, '#');
  const size_t begin = m.data.size();
  m.callLimit = 60000;
  const unsigned mode = draw(FAULT, 8);
  mem::cap(8 << 20);
  ev("class of %zu members, %zu bytes", c->m.size(), c->size);
  { // saving
    DevBuf buf(m, 16, 1 + work(60));
    std::ostream os(&buf);
    BinWritterRef wr(os);
    wr.Seek(0, std::ios_base::end);
    ReflectedInstance in = src.inst();
    ReflectorPureWrap rw(in);
    if (mode == 7) {
      if (draw(FAULT, 2))
        m.writeFailAt = 1 + draw(FAULT, 12);
      else
        m.limit = begin + draw(FAULT, 200);
      m.writeThrows = draw(FAULT, 2);
      m.sticky = true;
    }
    if (mode == 6)
      mem::fail_at(1 + draw(FAULT, 60));
    int rv = -1;
    bool threw = false;
    try {
      rv = ReflectorBinUtil::Save(rw, wr);
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    mem::off();
    bool bad = os.fail();
    os.flush();
    ev("save: %d%s%s", rv, threw ? " threw" : "", bad ? " failed" : "");
    SIM_CHECK(!threw || mem::fired(), "refused", "Save threw without a reason");
    SIM_CHECK(threw || !bad || rv != 0, "silent",
              "Save met a failing medium and reported success");
    SIM_CHECK(threw || bad || rv == 0 || mem::fired(), "refused", "Save gave %d",
              rv);
    src.check_padding("Save");
    if (threw || rv || bad || os.fail()) {
      if (mode == 6) { // memory is back: again
        m.data.resize(begin);
        DevBuf b2(m);
        std::ostream o2(&b2);
        BinWritterRef w2(o2);
        w2.Seek(begin);
        SIM_CHECK(ReflectorBinUtil::Save(rw, w2) == 0, "refused",
                  "Save cannot be repeated after an allocation failed");
        o2.flush();
      } else {
        return;
      }
    }
  }
  m.writeFailAt = 0;
  const std::string whole = m.data;
  Cls *grown = nullptr; // a nested class that changed meanwhile
  bool corrupt = false;
  switch (mode) {
  case 0:
    trivial();
    break;
  case 1:
  case 2:
    m.data.resize(begin + draw(FAULT, whole.size() - begin));
    ev("FAULT record cut to %zu of %zu", m.data.size() - begin,
       whole.size() - begin);
    count("fault.truncated");
    break;
  case 3:
    for (size_t k = 1 + draw(FAULT, 4); k; k--) {
      size_t at = begin + draw(FAULT, whole.size() - begin);
      if (draw(FAULT, 2)) // counts and sizes
        at = std::min(begin + draw(FAULT, 24), whole.size() - 1);
      m.data[at] = draw(FAULT, 2) ? m.data[at] ^ (1 << draw(FAULT, 8))
                                  : "\xff\x7f\x80\x00"[draw(FAULT, 4)];
      ev("FAULT byte %zu becomes %02x", at - begin, (unsigned char)m.data[at]);
      count("fault.corrupted_byte");
    }
    corrupt = true;
    break;
  case 4:
    (draw(FAULT, 2) ? m.readThrowAt : m.readEofAt) = 1 + draw(FAULT, 30);
    m.sticky = draw(FAULT, 2);
    break;
  case 5: {
    std::vector<const Member *> subs;
    for (auto &x : c->m)
      if (x.kind == REFType::Class)
        subs.push_back(&x);
    if (subs.empty())
      break;
    const Cls *sub = subs[work(subs.size())]->sub;
    w.classes.push_back(*sub);
    grown = &w.classes.back();
    grown->m.push_back(w.make_member(0, o));
    grown->seal(); // places stay: the new member is never touched
    REFSubClassStorage[sub->hash] = grown->refl();
    ev("FAULT nested %s has a member more now", sub->name.c_str());
    count("fault.nested_class_changed");
    break;
  }
  }
  Obj t(c, 0xa7);
  t.fill();
  std::vector<Dump> before;
  for (auto &x : c->m)
    before.push_back(part(c, t, x));
  DevBuf buf(m, 1 + work(60), 16);
  std::istream is(&buf);
  is.seekg(begin);
  BinReaderRef rd(is);
  m.fired = 0;
  m.reads = 0;
  if (mode == 0 && draw(FAULT, 2)) {
    mem::fail_at(1 + draw(FAULT, 40));
  }
  ReflectedInstance in = t.inst();
  ReflectorPureWrap rw(in);
  int rv = -1;
  bool threw = false;
  try {
    rv = ReflectorBinUtil::Load(rw, rd);
  } catch (const std::bad_alloc &) {
    threw = true;
  } catch (const std::length_error &) {
    threw = true;
  }
  mem::off();
  ev("load: %d%s%s", rv, threw ? " threw" : "", is.fail() ? " failed" : "");
  t.check_padding("Load");
  if (corrupt)
    return; // whatever it holds
  SIM_CHECK(!mem::refused(), "size", "Load asked for an absurd amount of memory");
  SIM_CHECK(!threw || mem::fired(), "refused", "Load threw without a reason");
  const bool cut = m.data.size() < whole.size();
  if (cut || m.fired || grown)
    SIM_CHECK(rv != 0, "silent",
              "Load of a record that %s reported success",
              cut ? "is cut short" : grown ? "does not fit" : "cannot be read");
  else
    SIM_CHECK(threw || rv == 0, "refused", "Load of an intact record gave %d", rv);
  if (grown)
    for (size_t i = 0; i < c->m.size(); i++) {
      const Member &x = c->m[i];
      bool touched = x.kind == REFType::Class && x.sub->hash == grown->hash;
      std::vector<const Cls *> q;
      if (x.kind == REFType::Class)
        q.push_back(x.sub);
      while (!q.empty()) {
        const Cls *k = q.back();
        q.pop_back();
        touched |= k->hash == grown->hash;
        for (auto &y : k->m)
          if (y.kind == REFType::Class)
            q.push_back(y.sub);
      }
      if (!touched)
        same(part(c, src, x), part(c, t, x), "member beside one that did not fit");
    }
  if ((m.fired || cut) && !threw) {
    // It may damage one member only: up to it all are loaded,
    // behind it all are untouched.
    size_t damaged = 0;
    bool behind = false;
    for (size_t i = 0; i < c->m.size(); i++) {
      Dump now = part(c, t, c->m[i]);
      bool loaded = now == part(c, src, c->m[i]), old = now == before[i];
      if (!behind && loaded)
        continue;
      if (!behind && !old)
        damaged++;
      SIM_CHECK(!behind || old, "value",
                "%s was changed though the medium had failed before",
                c->m[i].name.c_str());
      behind = true;
    }
    SIM_CHECK(damaged <= 1, "value", "%zu members damaged", damaged);
  }
}
SIM_PROP_BATCH("C15", c15);

// A database of classes and enums.
struct Db {
  std::vector<const Cls *> cls;
  std::vector<const EnumDef *> en;
};
Db make_db(World &w, ReflectorIO &io) {
  Opt o;
  o.written = false;
  Db d;
  const size_t had = w.classes.size(); // made for another database
  for (size_t n = work(4); n; n--)
    w.make_class(1, o);
  for (size_t n = work(3); n; n--)
    w.make_enum(work(2), work(3) ? 1 : 8, work(8) == 7);
  for (size_t i = had; i < w.classes.size(); i++)
    for (auto &m : w.classes[i].m)
      if (m.hasAlias && work(16) == 15) {
        m.alias.clear(); // an empty one is still one
        w.classes[i].seal();
      }
  for (auto &c : w.classes)
    if (work(4) != 3) {
      d.cls.push_back(&c);
      io.AddClass(c.refl());
    }
  for (auto &e : w.enums)
    if (work(4) != 3) {
      d.en.push_back(&e);
      io.AddEnum(e.make());
    }
  return d;
}
std::string sv(es::string_view v) { return std::string(v.data(), v.size()); }

void compare_class(const Cls &c, const reflectorStatic &r) {
  const char *n = c.name.c_str();
  SIM_CHECK(r.classHash == c.hash && r.nTypes == c.m.size(), "class",
            "%s: hash or member count differ", n);
  SIM_CHECK(!memcmp(r.types, c.types.data(), c.types.size() * sizeof(reflType)),
            "class", "%s: member types differ", n);
  SIM_CHECK(!r.className == !c.names && (!c.names || c.name == r.className),
            "class", "%s: class name differs", n);
  SIM_CHECK(!r.typeNames == !c.names, "class", "%s: member names %s", n,
            c.names ? "are lost" : "appear");
  SIM_CHECK(!r.typeAliases == !c.ext && !r.typeAliasHashes == !c.ext &&
                !r.typeDescs == !c.ext,
            "class", "%s: aliases, their hashes or descriptions %s", n,
            c.ext ? "are lost" : "appear");
  for (size_t k = 0; k < c.m.size(); k++) {
    const Member &m = c.m[k];
    if (c.names)
      SIM_CHECK(m.name == r.typeNames[k], "class", "%s: name of member %zu", n, k);
    if (!c.ext)
      continue;
    SIM_CHECK(!r.typeAliases[k] == !m.hasAlias &&
                  (!m.hasAlias || m.alias == r.typeAliases[k]),
              "class", "%s: alias of %s: \"%s\", expected \"%s\"", n,
              m.name.c_str(), r.typeAliases[k] ? r.typeAliases[k] : "(none)",
              m.hasAlias ? m.alias.c_str() : "(none)");
    SIM_CHECK(r.typeAliasHashes[k] == c.th[k], "class", "%s: alias hash of %s",
              n, m.name.c_str());
    SIM_CHECK(sv(r.typeDescs[k].part1) == m.part1 &&
                  sv(r.typeDescs[k].part2) == m.part2,
              "class", "%s: description of %s is '%s','%s'", n, m.name.c_str(),
              sv(r.typeDescs[k].part1).c_str(),
              sv(r.typeDescs[k].part2).c_str());
  }
}
void compare_enum(const EnumDef &e, const ReflectedEnum &r) {
  SIM_CHECK(r.hash == e.hash && sv(r.name) == e.name &&
                r.size() == e.names.size(),
            "enum", "%s: hash, name or size differ", e.name.c_str());
  for (size_t k = 0; k < e.names.size(); k++)
    SIM_CHECK(sv(r[k]) == e.names[k] && r.values[k] == e.values[k], "enum",
              "%s: value %zu differs", e.name.c_str(), k);
}

void compare_db(const Db &d, const ReflectorIO &io) {
  SIM_CHECK(io.Classes().size() == d.cls.size() && io.Enums().size() == d.en.size(),
            "count", "%zu classes and %zu enums are loaded, %zu and %zu saved",
            io.Classes().size(), io.Enums().size(), d.cls.size(), d.en.size());
  for (size_t i = 0; i < d.cls.size(); i++)
    compare_class(*d.cls[i], *io.Classes()[i]);
  for (size_t i = 0; i < d.en.size(); i++)
    compare_enum(*d.en[i], io.Enums()[i]);
}

void c16() {
  World w;
  w.huge = work(400) == 399; // more than 64 KiB
  Medium m, again;
  if (w.huge)
    m.callLimit = again.callLimit = 40000000;
  m.data = std::string(work(2) ? work(70) : 0, '#');
  const std::string front = m.data;
  std::vector<std::unique_ptr<ReflectorIO>> ios;
  std::vector<Db> dbs;
  std::vector<size_t> at;
  {
    DevBuf buf(m, 16, 1 + work(300));
    std::ostream os(&buf);
    BinWritterRef wr(os);
    wr.Seek(0, std::ios_base::end);
    if (work(4) == 3)
      wr.SetRelativeOrigin(wr.Tell());
    for (size_t n = 1 + work(2); n; n--) {
      ios.emplace_back(new ReflectorIO);
      dbs.push_back(make_db(w, *ios.back()));
      at.push_back(os.tellp());
      int rv = ios.back()->Save(wr);
      ev("save %zu classes, %zu enums at %zu: %d", dbs.back().cls.size(),
         dbs.back().en.size(), at.back(), rv);
      SIM_CHECK(rv == 0, "refused", "Save gave %d", rv);
      compare_db(dbs.back(), *ios.back());
      size_t end = os.tellp();
      os.flush();
      SIM_CHECK(os.good() && end == m.data.size(), "position",
                "after Save the stream is at %zu, its end is %zu", end,
                m.data.size());
    }
    at.push_back(m.data.size());
  }
  SIM_CHECK(!m.data.compare(0, front.size(), front), "stray",
            "Save changed what was stored in front");
  DevBuf buf(m, 1 + work(300), 16);
  std::istream is(&buf);
  BinReaderRef rd(is);
  std::unique_ptr<ReflectorIO> io(new ReflectorIO);
  for (size_t k = 0; k < dbs.size(); k++) {
    rd.Seek(at[k]);
    switch (work(3)) {
    case 0:
      io.reset(new ReflectorIO);
      break;
    case 1:
      break; // into one that holds the other database already
    case 2:
      io.reset(new ReflectorIO);
      make_db(w, *io); // ... or static classes
    }
    int rv = io->Load(rd);
    ev("load at %zu: %d", at[k], rv);
    SIM_CHECK(rv == 0, "refused", "Load of a saved database gave %d", rv);
    compare_db(dbs[k], *io);
    SIM_CHECK((size_t)is.tellg() == at[k + 1], "position",
              "after Load the stream is at %zd, the database ends at %zu",
              (ssize_t)is.tellg(), at[k + 1]);
    compare_db(dbs[k], *ios[k]); // what was saved is left alone
  }
  // and saved again it is the same
  DevBuf b2(again);
  {
    std::ostream os(&b2);
    BinWritterRef wr(os);
    SIM_CHECK(io->Save(wr) == 0, "refused", "saving a loaded database failed");
    os.flush();
  }
  size_t l = dbs.size() - 1;
  SIM_CHECK(again.data == m.data.substr(at[l], at[l + 1] - at[l]), "again",
            "a loaded database saved again differs");
}
SIM_PROP_BATCH("C16", c16);

void c17() {
  World w;
  Medium m;
  m.data = std::string(work(2) ? work(40) : 0, '#');
  const size_t begin = m.data.size();
  m.callLimit = 60000;
  mem::cap(8 << 20);
  const unsigned mode = draw(FAULT, 7);
  ReflectorIO io;
  Db db = make_db(w, io);
  {
    DevBuf buf(m, 16, 1 + work(100));
    std::ostream os(&buf);
    BinWritterRef wr(os);
    wr.Seek(0, std::ios_base::end);
    if (mode == 5) {
      switch (draw(FAULT, 3)) {
      case 0:
        m.writeFailAt = 1 + draw(FAULT, 30);
        break;
      case 1:
        m.limit = begin + draw(FAULT, 600);
        break;
      case 2:
        m.seeks = 0;
        m.seekFailAt = 1 + draw(FAULT, 20);
        break;
      }
      m.writeThrows = draw(FAULT, 2);
      m.sticky = true;
      m.fired = 0;
    }
    if (mode == 6)
      mem::fail_at(1 + draw(FAULT, 20));
    int rv = -1;
    bool threw = false;
    try {
      rv = io.Save(wr);
    } catch (const std::bad_alloc &) {
      threw = true;
    }
    mem::off();
    bool bad = os.fail();
    os.flush();
    ev("save: %d%s%s", rv, threw ? " threw" : "", bad ? " failed" : "");
    SIM_CHECK(!threw || mem::fired(), "refused", "Save threw without a reason");
    SIM_CHECK(threw || !bad || rv, "silent",
              "Save met a failing medium and reported success");
    SIM_CHECK(threw || bad || rv == 0, "refused", "Save gave %d", rv);
    compare_db(db, io);
    if (bad || os.fail())
      return;
    if (threw) { // memory is back
      m.data.resize(begin);
      DevBuf b2(m);
      std::ostream o2(&b2);
      BinWritterRef w2(o2);
      w2.Seek(begin);
      SIM_CHECK(io.Save(w2) == 0, "refused",
                "Save cannot be repeated after an allocation failed");
      o2.flush();
    }
  }
  m.writeFailAt = m.seekFailAt = 0;
  const size_t whole = m.data.size();
  switch (mode) {
  case 0:
    trivial();
    break;
  case 1:
  case 2:
    m.data.resize(begin + draw(FAULT, draw(FAULT, 2) ? 34 : whole - begin));
    m.data.resize(std::min(m.data.size(), whole - 1));
    ev("FAULT database cut to %zu of %zu", m.data.size() - begin, whole - begin);
    count("fault.truncated");
    break;
  case 3:
    (draw(FAULT, 2) ? m.readThrowAt : m.readEofAt) = 1 + draw(FAULT, 12);
    m.sticky = draw(FAULT, 2);
    break;
  case 4: { // not a database, or one of a later version
    size_t at = draw(FAULT, 8); // 0-3: id, 4-7: version
    if (at < 4) {
      m.data[begin + at] ^= 1 + draw(FAULT, 255);
    } else { // any later one
      uint32_t v;
      memcpy(&v, &m.data[begin + 4], 4);
      uint32_t more = ~v;
      v += 1 + (draw(FAULT, 2) ? draw(FAULT, 3000) : draw_u64(FAULT) % more);
      memcpy(&m.data[begin + 4], &v, 4);
    }
    ev("FAULT header byte %zu changed", at);
    count("fault.corrupted_byte");
    break;
  }
  }
  DevBuf buf(m, 1 + work(100), 16);
  std::istream is(&buf);
  is.seekg(begin);
  BinReaderRef rd(is);
  m.fired = m.reads = 0;
  ReflectorIO t;
  Db had;
  switch (work(3)) {
  case 1: // holds other classes
    had = make_db(w, t);
    break;
  case 2: { // holds a database loaded before
    Medium m2;
    DevBuf b2(m2, 300, 300);
    Db d2;
    ReflectorIO i2;
    d2 = make_db(w, i2);
    std::ostream o2(&b2);
    BinWritterRef w2(o2);
    SIM_CHECK(i2.Save(w2) == 0, "refused", "Save failed without a fault");
    o2.flush();
    std::istream s2(&b2);
    s2.seekg(0);
    BinReaderRef r2(s2);
    SIM_CHECK(t.Load(r2) == 0, "refused", "Load failed without a fault");
    compare_db(d2, t);
    had = d2;
    break;
  }
  }
  if (draw(FAULT, 6) == 5)
    mem::fail_at(1 + draw(FAULT, 12));
  int rv = -1;
  bool threw = false;
  try {
    rv = t.Load(rd);
  } catch (const std::bad_alloc &) {
    threw = true;
  }
  mem::off();
  bool broken = m.data.size() < whole || mode == 4 || m.fired;
  ev("load: %d%s", rv, threw ? " threw" : "");
  SIM_CHECK(!mem::refused(), "size", "Load asked for an absurd amount of memory");
  SIM_CHECK(!threw || mem::fired(), "refused", "Load threw without a reason");
  if (broken)
    SIM_CHECK(rv != 0, "silent", "Load of a database that %s reported success",
              mode == 4 ? "is none" : m.fired ? "cannot be read" : "is cut short");
  else
    SIM_CHECK(threw || rv == 0, "refused", "Load of an intact database gave %d", rv);
  if (rv == 0)
    compare_db(db, t);
  else if ((mode == 4 || m.data.size() - begin < 32) && !threw)
    compare_db(had, t); // a bad header, or not even all of one
  else if (!threw) {
    // whatever is left, new or old, is whole
    for (auto c : t.Classes()) {
      const Cls *is = nullptr;
      for (auto *d : {&db, &had})
        for (auto x : d->cls)
          if (c->classHash == x->hash)
            is = x;
      SIM_CHECK(is, "left", "a failed Load leaves a class nobody has saved");
      compare_class(*is, *c);
    }
    for (auto &e : t.Enums()) {
      const EnumDef *is = nullptr;
      for (auto *d : {&db, &had})
        for (auto x : d->en)
          if (e.hash == x->hash)
            is = x;
      SIM_CHECK(is, "left", "a failed Load leaves an enum nobody has saved");
      compare_enum(*is, e);
    }
  }
  // the medium recovers
  if (!broken || mode == 3) {
    m.readThrowAt = m.readEofAt = 0;
    is.clear();
    is.seekg(begin);
    rv = t.Load(rd);
    ev("load again: %d", rv);
    SIM_CHECK(rv == 0, "refused", "Load cannot be repeated, it gave %d", rv);
    compare_db(db, t);
  }
}
SIM_PROP_BATCH("C17", c17);
} // namespace
