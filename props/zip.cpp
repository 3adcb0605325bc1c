// C18: archive index and contents; C19: damaged archives and failing media.
#include "../sim/core.hpp"
#include "../sim/dev.hpp"
#include "../sim/mem.hpp"
#include "datas/except.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include <algorithm>
#include <cstddef>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace sim;

namespace {

void put(std::string &s, uint64_t v, int n) {
  for (int i = 0; i < n; i++)
    s.push_back((char)(v >> (8 * i)));
}
std::string bytes(size_t n, uint64_t k) {
  std::string r(n, 0);
  for (size_t i = 0; i < n; i++)
    r[i] = (char)(k * 131 + i * 37 + (i >> 4) * 11);
  return r;
}

struct Entry {
  std::string name, data, extra, comment;
  uint16_t flags = 0, method = 0;
  uint64_t hole = 0; // that many zeros instead of data
  uint64_t at = 0;   // of the local header
  uint64_t size() const { return hole ? hole : data.size(); }
};

struct Archive {
  std::vector<Entry> es_;
  Medium med;
  uint64_t start = 0; // archive begins here
  bool huge = false;    // names, extra fields or comments as long as they get
  bool badKind = false; // holds an entry that cannot be supported
  std::map<std::string, const Entry *> want;
  uint64_t firstCentral = 0;
  std::vector<size_t> ends; // of the records
};

void local(std::string &z, const Entry &e) {
  put(z, 0x04034b50, 4);
  put(z, 20, 2);
  put(z, e.flags, 2);
  put(z, e.method, 2);
  put(z, work(65536), 2);
  put(z, work(65536), 2);
  put(z, draw(WORK, 1ull << 32), 4);
  put(z, e.size(), 4);
  put(z, e.size(), 4);
  put(z, e.name.size(), 2);
  put(z, e.extra.size(), 2);
  z += e.name;
  z += e.extra;
}
void central(std::string &z, const Entry &e) {
  put(z, 0x02014b50, 4);
  put(z, 20, 2);
  put(z, 20, 2);
  put(z, e.flags, 2);
  put(z, e.method, 2);
  put(z, 0, 4);
  put(z, 0, 4);
  put(z, e.size(), 4);
  put(z, e.size(), 4);
  put(z, e.name.size(), 2);
  put(z, e.extra.size(), 2);
  put(z, e.comment.size(), 2);
  put(z, 0, 2);
  put(z, 0, 2);
  put(z, draw(WORK, 1ull << 32), 4);
  put(z, e.at, 4);
  z += e.name;
  z += e.extra;
  z += e.comment;
}

void build(Archive &a, bool holes) {
  std::string z;
  if (work(4) == 0) { // something else lies in front
    z = bytes(work(60), 7);
    a.start = z.size();
  }
  a.ends.push_back(z.size());
  auto end = [&] { a.ends.push_back(z.size()); };
  size_t n = work(7);
  a.es_.resize(n);
  bool unsupported = work(12) == 0;
  size_t odd = unsupported && n ? work(n) : n;
  a.huge = holes && work(200) == 199;
  for (size_t i = 0; i < n; i++) {
    Entry &e = a.es_[i];
    static const size_t sz[] = {0, 1, 20, 300, 2000};
    size_t len = sz[work(5)];
    e.data = bytes(len ? len + work(9) : 0, i + 1);
    switch (work(8)) {
    case 0: // a folder
      e.name = "dir" + std::to_string(i) + "/";
      e.data.clear();
      break;
    case 1: // the name of an earlier one
      e.name = i ? a.es_[work(i)].name : "x";
      break;
    case 2:
      e.name = std::string(200 + work(100), 'n') + std::to_string(i);
      break;
    default:
      e.name = (work(2) ? "dir/" : "") + std::string("file") + std::to_string(i);
    }
    e.extra = bytes(work(4) ? 0 : work(40), 3);
    e.comment = bytes(work(4) ? 0 : work(20), 5);
    if (a.huge) {
      if (work(3) == 2 && e.name.size() < 60000)
        e.name += std::string(65535 - e.name.size() - work(3000), 'h');
      if (work(2))
        e.extra = bytes(65535 - work(3000), 3);
      if (work(2))
        e.comment = bytes(65535 - work(3000), 5);
    }
    e.flags = work(4) ? 0 : 1 << 11; // utf-8 names
    if (i == odd && !e.data.empty()) {
      a.badKind = true;
      if (work(2))
        e.flags |= 1;
      else
        e.method = 8;
    }
    if (holes && !e.data.empty() && !a.med.holeLen && i != odd && work(8) == 0) {
      static const uint64_t big[] = {0x7fffff00ull, 0x80000000ull, 0xc0000001ull,
                                     0xfffffffeull};
      e.hole = big[work(4)];
      e.data.clear();
    }
    e.at = z.size() - a.start + a.med.holeLen;
    local(z, e);
    if (e.hole) {
      a.med.holeAt = z.size();
      a.med.holeLen = e.hole;
      ev("entry of %llu bytes", (unsigned long long)e.hole);
    } else {
      z += e.data;
    }
    end();
    if (work(10) == 0 && i + 1 < n) { // archive extra data
      std::string x = bytes(a.huge && work(2) ? 100000 + work(900) : work(20), 9);
      put(z, 0x08064b50, 4);
      if (holes && !a.med.holeLen && work(6) == 0) {
        a.med.holeLen = 0x7ffffff0ull + work(0x80000000u);
        put(z, a.med.holeLen, 4);
        a.med.holeAt = z.size();
        ev("extra data of %llu bytes", (unsigned long long)a.med.holeLen);
      } else {
        put(z, x.size(), 4);
        z += x;
      }
      end();
    }
    if (e.size() && !a.want.count(e.name))
      a.want[e.name] = &e;
    ev("entry %.20s %llu bytes, extra %zu", e.name.c_str(),
       (unsigned long long)e.size(), e.extra.size());
  }
  if (work(4)) {
    a.firstCentral = z.size() + a.med.holeLen;
    for (auto &e : a.es_) {
      central(z, e);
      end();
    }
    if (work(6) == 0) { // digital signature
      std::string x = bytes(a.huge && work(2) ? 65535 - work(3000) : work(20), 4);
      put(z, 0x05054b50, 4);
      put(z, x.size(), 2);
      z += x;
      end();
    }
    if (work(5) == 0) {
      put(z, 0x06064b50, 4);
      put(z, 44, 8);
      put(z, 45, 2);
      put(z, 45, 2);
      put(z, 0, 4);
      put(z, 0, 4);
      put(z, n, 8);
      put(z, n, 8);
      put(z, 0, 8);
      put(z, 0, 8);
      end();
      put(z, 0x07064b50, 4);
      put(z, 0, 4);
      put(z, 0, 8);
      put(z, 1, 4);
      end();
    }
    std::string c = bytes(work(2) ? 0 : work(40), 6);
    put(z, 0x06054b50, 4);
    put(z, 0, 2);
    put(z, 0, 2);
    put(z, n, 2);
    put(z, n, 2);
    put(z, 0, 4);
    put(z, 0, 4);
    put(z, c.size(), 2);
    z += c;
    end();
  }
  a.med.data = z;
}

void c18() {
  Archive a;
  build(a, true);
  DevBuf buf(a.med, (a.huge ? 1000 : 1) + work(200), 16);
  std::istream is(&buf);
  BinReaderRef rd(is);
  // the archive begins where the reader is
  const bool here = a.start && work(2);
  if (here)
    rd.Seek(a.start);
  else
    rd.SetRelativeOrigin(a.start);
  if (a.want.empty())
    trivial();
  std::unique_ptr<ZIPVFS> z;
  try {
    z.reset(new ZIPVFS(rd));
  } catch (const std::exception &e) {
    SIM_CHECK(a.badKind, "refused", "a well-formed archive was refused: %s",
              e.what());
    ev("refused: unsupported entry");
    return;
  }
  SIM_CHECK(!a.badKind, "accepted",
            "an archive with an encrypted or compressed entry was accepted");
  SIM_CHECK(z->size() == a.want.size() && z->empty() == a.want.empty(), "index",
            "%zu entries are indexed, the archive stores %zu files", z->size(),
            a.want.size());
  size_t seen = 0;
  for (auto &i : *z) {
    auto w = a.want.find(i.first);
    SIM_CHECK(w != a.want.end(), "index", "%s is indexed but not stored",
              i.first.c_str());
    SIM_CHECK(i.second.second == w->second->size(), "index",
              "%s is indexed with %zu bytes, it has %llu", i.first.c_str(),
              i.second.second, (unsigned long long)w->second->size());
    seen++;
  }
  SIM_CHECK(seen == a.want.size(), "index", "iteration misses entries");
  std::vector<std::string> names;
  for (auto &w : a.want)
    names.push_back(w.first);
  std::vector<std::pair<ZIPVFSFile, const Entry *>> open_;
  for (size_t i = work(8); i; i--) {
    if (!names.size() || work(8) == 0) {
      std::string miss = "no such file";
      SIM_CHECK(z->find(miss) == z->end(), "index", "a file never stored is found");
      bool threw = false;
      try {
        z->Get(miss);
      } catch (const std::out_of_range &) {
        threw = true;
      }
      SIM_CHECK(threw, "index", "getting a file never stored did not throw");
      continue;
    }
    const std::string &n = names[work(names.size())];
    const Entry *e = a.want[n];
    if (e->hole)
      continue;
    if (work(3) == 0) { // somebody else uses the stream
      ev("stream used elsewhere");
      rd.Seek(work(a.med.data.size() - a.start));
      uint8 b;
      rd.Read(b);
    }
    ev("Get %.20s", n.c_str());
    switch (work(3)) {
    case 0:
      open_.emplace_back(z->Get(n), e);
      break;
    case 1:
      open_.emplace_back(z->Get(z->find(n)), e);
      break;
    default:
      open_.emplace_back(z->Get(z->at(n)), e);
    }
    // any of the files got so far can be read, in any order
    auto &f = open_[work(open_.size())];
    BinReaderRef r = work(2) ? f.first.reader : BinReaderRef(f.first);
    SIM_CHECK(r.GetSize() == f.second->data.size(), "content",
              "the file has %zu bytes, stored are %zu", r.GetSize(),
              f.second->data.size());
    size_t from = work(f.second->data.size()), len = f.second->data.size() - from;
    std::string b(len, 0);
    r.Seek(from);
    r.ReadBuffer(&b[0], len);
    SIM_CHECK(b == f.second->data.substr(from), "content",
              "the file's bytes from %zu differ from those stored", from);
  }
  SIM_CHECK(is.good(), "state", "the archive's stream failed");
}
SIM_PROP_BATCH("C18", c18);

void c19() {
  Archive a;
  build(a, false);
  Medium &m = a.med;
  const std::string whole = m.data;
  bool data = false, io = false;
  bool torn = false; // not a sequence of whole records any more
  switch (draw(FAULT, 7)) {
  case 0:
    trivial();
    break;
  case 1:
  case 2: {
    size_t cut = m.data.size() - draw(FAULT, m.data.size() - a.start + 1);
    m.data.resize(cut);
    ev("FAULT archive truncated to %zu of %zu", cut, whole.size());
    count("fault.truncated");
    data = true;
    torn = std::find(a.ends.begin(), a.ends.end(), cut) == a.ends.end();
    break;
  }
  case 6: { // something follows a record
    size_t at = draw(FAULT, 3) ? m.data.size() : a.ends[draw(FAULT, a.ends.size())];
    std::string junk = bytes(1 + draw(FAULT, 40), draw(FAULT, 100));
    if (junk[0] == 'P')
      junk[0] = 'Q';
    ev("FAULT %zu foreign bytes at %zu of %zu", junk.size(), at, m.data.size());
    m.data.insert(at, junk);
    count("fault.foreign_bytes");
    data = torn = true;
    break;
  }
  case 3:
  case 4: {
    for (size_t i = 1 + draw(FAULT, 4); i && !m.data.empty(); i--) {
      // often in headers
      size_t at = draw(FAULT, m.data.size());
      if (draw(FAULT, 2) && !a.es_.empty())
        at = std::min<size_t>(a.start + a.es_[draw(FAULT, a.es_.size())].at +
                                  draw(FAULT, 30),
                              m.data.size() - 1);
      unsigned char v = draw(FAULT, 2) ? (unsigned char)m.data[at] ^ (1 << draw(FAULT, 8))
                                       : "\xff\x7f\x80\x00"[draw(FAULT, 4)];
      ev("FAULT byte %zu becomes %02x", at, v);
      m.data[at] = v;
      count("fault.corrupted_byte");
    }
    data = true;
    break;
  }
  case 5:
    switch (draw(FAULT, 3)) {
    case 0:
      m.readThrowAt = 1 + draw(FAULT, 40);
      break;
    case 1:
      m.readEofAt = 1 + draw(FAULT, 40);
      break;
    case 2:
      m.seekFailAt = 1 + draw(FAULT, 30);
      break;
    }
    m.sticky = draw(FAULT, 2);
    io = true;
    break;
  }
  (void)data;
  m.callLimit = 100000;
  mem::cap(8 << 20);
  DevBuf buf(m, 1 + work(200), 16);
  std::istream is(&buf);
  BinReaderRef rd(is);
  rd.SetRelativeOrigin(a.start);
  std::unique_ptr<ZIPVFS> z;
  uint64_t alloc = 0;
  if (draw(FAULT, 10) == 9) {
    alloc = 1 + draw(FAULT, 30);
    mem::fail_at(alloc);
  }
  try {
    z.reset(new ZIPVFS(rd));
  } catch (const std::exception &e) {
    mem::off();
    ev("refused");
    SIM_CHECK(!mem::refused(), "size", "opening asked for an absurd amount of memory");
    SIM_CHECK(data || m.fired || mem::fired() || a.badKind, "refused",
              "an intact archive was refused: %s", e.what());
    return;
  }
  mem::off();
  SIM_CHECK(!mem::refused(), "size", "opening asked for an absurd amount of memory");
  SIM_CHECK(!torn, "silent", "an archive that is no sequence of whole records was opened");
  const uint64_t firedOpen = m.fired;
  bool changed = m.data != whole;
  SIM_CHECK(!firedOpen || z->size() == a.want.size(), "silent",
            "opening met a failing medium and silently indexed %zu of %zu files",
            z->size(), a.want.size());
  if (!changed)
    SIM_CHECK(z->size() == a.want.size(), "index",
              "%zu entries indexed, %zu stored", z->size(), a.want.size());
  count("probe.damaged_archive_opened");
  // what is indexed lies inside of the archive
  std::vector<std::string> names;
  for (auto &i : *z) {
    names.push_back(i.first);
    SIM_CHECK(a.start + i.second.first + i.second.second <= m.data.size() &&
                  i.second.first <= m.data.size(),
              "index", "%.40s is indexed at %zu+%zu beyond the end at %zu",
              i.first.c_str(), i.second.first, i.second.second, m.data.size());
    if (m.data.size() < whole.size() && a.want.count(i.first))
      SIM_CHECK(a.want[i.first]->size() == i.second.second, "index",
                "a truncated archive changed the size of %.40s", i.first.c_str());
  }
  for (size_t k = work(8); k && !names.empty(); k--) {
    const std::string &n = names[work(names.size())];
    auto place = z->at(n);
    if (draw(FAULT, 12) == 11)
      mem::fail_at(1 + draw(FAULT, 12));
    bool threw = false;
    std::string got;
    try {
      ZIPVFSFile f = z->Get(n);
      mem::off();
      BinReaderRef r = f;
      size_t s = r.GetSize();
      SIM_CHECK(s == place.second, "content",
                "%.40s: got %zu of %zu bytes without an error", n.c_str(), s,
                place.second);
      got.resize(s);
      r.ReadBuffer(&got[0], s);
    } catch (const std::exception &e) {
      mem::off();
      threw = true;
    }
    ev("Get %.20s%s", n.c_str(), threw ? " throws" : "");
    if (threw) {
      // a medium that failed once may stay unusable; memory may not
      SIM_CHECK(m.fired || mem::fired(), "refused",
                "an indexed file could not be got from a healthy medium");
      continue;
    }
    SIM_CHECK(got == m.data.substr(a.start + place.first, place.second),
              "content", "%.40s: the bytes got are not those stored", n.c_str());
  }
  (void)io;
}
SIM_PROP_BATCH("C19", c19);

// ---- C28: records written and read on their own
struct Rec {
  int kind = 0; // 0..5 records, 6 raw bytes
  std::string want; // its bytes
  ZIPLocalFile lf;
  ZIPFile f;
  ZIPSignature sg;
  ZIPCentralDir cd;
  ZIP64CentralDir c6;
  ZIP64CentralDirLocator lc;
};

// a field's value and its bytes as the format has them
template <class T> void field(std::string &z, T &v) {
  uint64_t x = 0;
  switch (work(6)) {
  case 0:
    break;
  case 1:
    x = ~0ull;
    break;
  case 2:
    x = 1ull << work(sizeof(T) * 8);
    break;
  case 3:
    x = work(40);
    break;
  default:
    x = draw_u64(WORK);
  }
  v = (T)x;
  put(z, (uint64_t)(T)x, sizeof(T));
}
void field(std::string &z, ZIPLocalFlags &v) {
  uint16_t x;
  field(z, x);
  static_assert(sizeof(ZIPLocalFlags) == 2, "");
  memcpy(&v, &x, 2);
}
void field(std::string &z, ZIPCompressionMethod &v) {
  uint16_t x;
  field(z, x);
  v = (ZIPCompressionMethod)x;
}
template <class R> void id(std::string &z, R &r, uint32_t sig) {
  SIM_CHECK(R::ID == sig, "layout", "a record's signature is %08x, not %08x",
            (unsigned)R::ID, sig);
  r.id = R::ID;
  put(z, sig, 4);
  if (work(8) == 0) { // also what is no signature is kept as it is
    z.resize(z.size() - 4);
    field(z, r.id);
  }
}
void make(Rec &r) {
  std::string &z = r.want;
  switch (r.kind) {
  case 0:
    id(z, r.lf, 0x04034b50);
    field(z, r.lf.extractVersion), field(z, r.lf.flags), field(z, r.lf.compression);
    field(z, r.lf.lastModFileTime), field(z, r.lf.lastModFileDate), field(z, r.lf.crc);
    field(z, r.lf.compressedSize), field(z, r.lf.uncompressedSize);
    field(z, r.lf.fileNameSize), field(z, r.lf.extraFieldSize);
    break;
  case 1:
    id(z, r.f, 0x02014b50);
    field(z, r.f.madeBy), field(z, r.f.extractVersion), field(z, r.f.flags);
    field(z, r.f.compression), field(z, r.f.lastModFileTime), field(z, r.f.lastModFileDate);
    field(z, r.f.crc), field(z, r.f.compressedSize), field(z, r.f.uncompressedSize);
    field(z, r.f.fileNameSize), field(z, r.f.extraFieldSize), field(z, r.f.fileCommentSize);
    field(z, r.f.diskNumberStart), field(z, r.f.internalFileAttrs);
    field(z, r.f.externalFileAttrs), field(z, r.f.localHeaderOffset);
    break;
  case 2:
    id(z, r.sg, 0x05054b50);
    field(z, r.sg.dataSize);
    break;
  case 3:
    id(z, r.cd, 0x06054b50);
    field(z, r.cd.diskNumber), field(z, r.cd.startDiskNumber), field(z, r.cd.numDiskEntries);
    field(z, r.cd.numDirEntries), field(z, r.cd.dirSize), field(z, r.cd.dirOffset);
    field(z, r.cd.commentSize);
    break;
  case 4:
    id(z, r.c6, 0x06064b50);
    field(z, r.c6.dirRecord), field(z, r.c6.madeBy), field(z, r.c6.extractVersion);
    field(z, r.c6.diskNumber), field(z, r.c6.startDiskNumber);
    field(z, r.c6.numDiskEntries), field(z, r.c6.numDirEntries);
    field(z, r.c6.dirSize), field(z, r.c6.dirOffset);
    break;
  case 5:
    id(z, r.lc, 0x07064b50);
    field(z, r.lc.diskNumber), field(z, r.lc.centralDirOffset), field(z, r.lc.numDisks);
    break;
  default:
    z = bytes(work(30), work(100));
  }
}
// the same record again from what its fields hold
std::string fields(int kind, const Rec &r) {
  std::string z;
  auto p = [&z](uint64_t v, int n) { put(z, v, n); };
  auto fl = [&z](const ZIPLocalFlags &f) {
    uint16_t x;
    memcpy(&x, &f, 2);
    put(z, x, 2);
  };
  switch (kind) {
  case 0:
    p(r.lf.id, 4), p(r.lf.extractVersion, 2), fl(r.lf.flags), p((uint16_t)r.lf.compression, 2);
    p(r.lf.lastModFileTime, 2), p(r.lf.lastModFileDate, 2), p(r.lf.crc, 4);
    p(r.lf.compressedSize, 4), p(r.lf.uncompressedSize, 4);
    p(r.lf.fileNameSize, 2), p(r.lf.extraFieldSize, 2);
    break;
  case 1:
    p(r.f.id, 4), p(r.f.madeBy, 2), p(r.f.extractVersion, 2), fl(r.f.flags);
    p((uint16_t)r.f.compression, 2), p(r.f.lastModFileTime, 2), p(r.f.lastModFileDate, 2);
    p(r.f.crc, 4), p(r.f.compressedSize, 4), p(r.f.uncompressedSize, 4);
    p(r.f.fileNameSize, 2), p(r.f.extraFieldSize, 2), p(r.f.fileCommentSize, 2);
    p(r.f.diskNumberStart, 2), p(r.f.internalFileAttrs, 2);
    p(r.f.externalFileAttrs, 4), p(r.f.localHeaderOffset, 4);
    break;
  case 2:
    p(r.sg.id, 4), p(r.sg.dataSize, 2);
    break;
  case 3:
    p(r.cd.id, 4), p(r.cd.diskNumber, 2), p(r.cd.startDiskNumber, 2);
    p(r.cd.numDiskEntries, 2), p(r.cd.numDirEntries, 2), p(r.cd.dirSize, 4);
    p(r.cd.dirOffset, 4), p(r.cd.commentSize, 2);
    break;
  case 4:
    p(r.c6.id, 4), p(r.c6.dirRecord, 8), p(r.c6.madeBy, 2), p(r.c6.extractVersion, 2);
    p(r.c6.diskNumber, 4), p(r.c6.startDiskNumber, 4), p(r.c6.numDiskEntries, 8);
    p(r.c6.numDirEntries, 8), p(r.c6.dirSize, 8), p(r.c6.dirOffset, 8);
    break;
  default:
    p(r.lc.id, 4), p(r.lc.diskNumber, 4), p(r.lc.centralDirOffset, 8), p(r.lc.numDisks, 4);
  }
  return z;
}
const char *kindName[] = {"local file", "central file", "signature", "end of directory",
                          "zip64 directory", "zip64 locator", "bytes"};

void wr(BinWritterRef w, const Rec &r) {
  switch (r.kind) {
  case 0: work(2) ? w.Write(r.lf) : r.lf.Write(w); break;
  case 1: work(2) ? w.Write(r.f) : r.f.Write(w); break;
  case 2: work(2) ? w.Write(r.sg) : r.sg.Write(w); break;
  case 3: work(2) ? w.Write(r.cd) : r.cd.Write(w); break;
  case 4: work(2) ? w.Write(r.c6) : r.c6.Write(w); break;
  case 5: work(2) ? w.Write(r.lc) : r.lc.Write(w); break;
  default: w.WriteBuffer(r.want.data(), r.want.size());
  }
}
template <class T> void rd1(BinReaderRef r, T &t) {
  work(2) ? r.Read(t) : t.Read(r);
}
void rd(BinReaderRef r, Rec &o) {
  switch (o.kind) {
  case 0: rd1(r, o.lf); break;
  case 1: rd1(r, o.f); break;
  case 2: rd1(r, o.sg); break;
  case 3: rd1(r, o.cd); break;
  case 4: rd1(r, o.c6); break;
  case 5: rd1(r, o.lc); break;
  default: r.Skip((int)o.want.size());
  }
}

void c28() {
  // what is written
  std::vector<std::unique_ptr<Rec>> recs;
  std::string lead = bytes(work(3) ? 0 : work(50), 2), want = lead;
  std::vector<size_t> ends;
  for (size_t n = 1 + work(10); n; n--) {
    recs.emplace_back(new Rec);
    Rec &r = *recs.back();
    memset((void *)&r.lf, 0x5a, sizeof r - offsetof(Rec, lf));
    r.kind = work(7);
    make(r);
    want += r.want;
    ends.push_back(want.size());
    ev("%s", kindName[r.kind]);
  }
  Medium m;
  switch (draw(FAULT, 5)) {
  case 0:
  case 1:
    break;
  case 2:
    m.limit = draw(FAULT, want.size() + 1);
    break;
  default:
    m.writeFailAt = 1 + draw(FAULT, 30);
    m.writeThrows = draw(FAULT, 2);
    m.sticky = draw(FAULT, 2);
  }
  size_t written = 0; // records written before the stream failed
  {
    DevBuf buf(m, 16, 1 + work(60));
    std::ostream os(&buf);
    BinWritterRef w(os);
    w.WriteBuffer(lead.data(), lead.size());
    if (work(2))
      w.SetRelativeOrigin(lead.size());
    for (size_t i = 0; i < recs.size(); i++) {
      Rec &r = *recs[i];
      wr(w, r);
      if (work(4) == 0)
        os.flush();
      if (!os)
        break;
      SIM_CHECK(size_t(os.tellp()) == ends[i] || !os, "length",
                "after a %s record the stream is at %zd, expected %zu",
                kindName[r.kind], (ssize_t)os.tellp(), ends[i]);
      if (r.kind < 6)
        SIM_CHECK(fields(r.kind, r) == r.want, "input", "writing changed the %s record",
                  kindName[r.kind]);
      written++;
    }
    if (os)
      os.flush();
    if (!m.fired)
      SIM_CHECK(os.good(), "state", "writing failed on a healthy medium");
    else
      SIM_CHECK(!os, "silent", "the medium failed and the stream did not tell");
    if (os)
      SIM_CHECK(m.data == want, "layout", "records are not written as the format has them");
    if (!os) { // no more of it
      m.writeFailAt = 0;
      m.limit = 0;
    }
  }
  ev("%zu of %zu records written", written, recs.size());
  // whatever reached the medium is what was written, as far as it goes
  SIM_CHECK(m.data.size() <= want.size() && want.compare(0, m.data.size(), m.data) == 0,
            "layout", "what reached the medium is no prefix of the records");
  // read back
  m = Medium();
  m.data = want;
  switch (draw(FAULT, 5)) {
  case 0:
  case 1:
    break;
  case 2:
    m.data.resize(draw(FAULT, want.size() + 1));
    count("fault.truncated");
    break;
  case 3:
    m.readThrowAt = 1 + draw(FAULT, 20);
    break;
  default:
    m.readEofAt = 1 + draw(FAULT, 20);
    m.sticky = draw(FAULT, 2);
  }
  DevBuf buf(m, 1 + work(60), 16);
  std::istream is(&buf);
  BinReaderRef r(is);
  if (lead.size() <= m.data.size())
    r.Seek(lead.size());
  else
    return;
  for (size_t i = 0; i < recs.size(); i++) {
    Rec got;
    memset((void *)&got.lf, 0xc3, sizeof got - offsetof(Rec, lf));
    got.kind = recs[i]->kind;
    got.want = recs[i]->want;
    rd(r, got);
    if (got.kind == 6) {
      if (ends[i] > m.data.size() || is.fail())
        return;
      continue;
    }
    bool whole = ends[i] <= m.data.size() && !m.fired;
    SIM_CHECK(is.fail() == !whole, "report", "a %s record at %zu of %zu bytes%s: the stream %s",
              kindName[got.kind], ends[i] - got.want.size(), m.data.size(),
              m.fired ? " (medium failed)" : "", is.fail() ? "failed" : "is good");
    if (!whole)
      return;
    SIM_CHECK(fields(got.kind, got) == got.want, "value",
              "a %s record is not read as it was written", kindName[got.kind]);
    SIM_CHECK(r.Tell() == ends[i], "length", "after a %s record the reader is at %zu, expected %zu",
              kindName[got.kind], (size_t)r.Tell(), ends[i]);
    count("probe.record_read_back");
  }
}
SIM_PROP_BATCH("C28", c28);

} // namespace
