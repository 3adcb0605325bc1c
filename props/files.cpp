// C13: file readers and writers under faults of the calls below them;
// C20: directory scans; C21: folder creation; C22: file types.
#include "../sim/core.hpp"
#include "../sim/fs.hpp"
#include "../sim/mem.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/stat.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace sim;

namespace {

std::string bytes(size_t n, uint64_t k) {
  std::string r(n, 0);
  for (size_t i = 0; i < n; i++)
    r[i] = (char)(k + i * 37 + (i >> 5) * 11 + (i >> 13));
  return r;
}
size_t some_size() {
  static const size_t m[] = {4, 60, 3000, 9000, 40000};
  return work(m[work(5)]);
}
void faults(fs::Cfg &c) {
  // interruptions and short transfers are normal, errors less so
  if (draw(FAULT, 2))
    c.eintr = 1 + draw(FAULT, 300);
  if (draw(FAULT, 2))
    c.shortIo = 1 + draw(FAULT, 600);
}

// ------------------------------------------------------------------- C13

// the file's name, now and then a long one
std::string some_path(std::string &top) {
  top = "/";
  if (work(12) != 11)
    return "/a";
  top.clear();
  for (size_t n = 1 + work(4); n; n--) {
    top += "/" + std::string(1 + work(250), 'a' + (char)work(20));
    fs::make_dir(top);
  }
  return top + "/" + std::string(1 + work(250), 'z');
}

void file_reader() {
  fs::Cfg c;
  faults(c);
  int kind = draw(FAULT, 5);
  if (kind == 1)
    c.readErr = 20 + draw(FAULT, 300);
  if (kind == 2)
    c.seekErr = 20 + draw(FAULT, 300);
  if (kind == 3)
    c.openErr = 512;
  if (kind == 4)
    c.closeErr = 512;
  fs::begin(c);
  std::string top, A = some_path(top);
  std::string data = bytes(some_size(), work(256));
  if (work(12))
    fs::put(A, data);
  fs::put("/b", "other");
  bool there = fs::type(A) == fs::FILE_, other = false;
  if (work(20) == 0) {
    fs::deny(A, true);
    there = false;
  }
  {
    std::unique_ptr<BinReader> r;
    int how = work(3);
    bool opened = false, threw = false;
    for (int tries = 0; tries < 3 && !opened; tries++) {
      uint64_t before = fs::fired().open;
      threw = false;
      try {
        std::string p = A;
        if (!r && how == 0)
          r.reset(new BinReader(p));
        else if (!r && how == 1)
          r.reset(new BinReader(p.c_str()));
        else {
          if (!r)
            r.reset(new BinReader());
          if (work(2))
            r->Open(p);
          else
            r->Open(p.c_str());
        }
        opened = true;
      } catch (const es::FileNotFoundError &e) {
        threw = true;
        SIM_CHECK(strstr(e.what(), A.c_str()), "report",
                  "the error does not name the file: %s", e.what());
      }
      bool expect = there && fs::fired().open == before;
      SIM_CHECK(expect || threw, "report",
                "a file that could not be opened was not reported");
      SIM_CHECK(!expect || opened, "report",
                "a file that can be opened was reported as missing");
      if (!there)
        break;
    }
    if (opened) {
      SIM_CHECK(r->IsValid(), "state", "a freshly opened reader is not valid");
      uint64_t pos = 0;
      if (work(10) == 0) {
        // a reader in use is opened again: that is reported, or it reads the
        // other file from its start
        bool second = work(3) != 0, threw = false;
        const char *name = second ? "/b" : "/none";
        ev("open %s again", name);
        try {
          if (work(2))
            r->Open(std::string(name));
          else
            r->Open(name);
        } catch (const es::FileNotFoundError &e) {
          threw = true;
          SIM_CHECK(strstr(e.what(), name), "report",
                    "the error does not name the file: %s", e.what());
          SIM_CHECK(!r->IsValid(), "state",
                    "a reader whose opening failed says it is valid");
        }
        SIM_CHECK(threw || second, "report",
                  "a file that could not be opened was not reported");
        if (!threw) {
          SIM_CHECK(r->IsValid(), "state",
                    "a freshly opened reader is not valid");
          data = "other";
          other = true;
        }
      }
      size_t n = 1 + work(12);
      uint64_t off = 0, save = 0; // where positions count from, Push()
      bool swap = false;
      for (size_t i = 0; i < n && r->IsValid(); i++) {
        switch (work(8)) {
        case 4:
          switch (work(4)) {
          case 0:
            ev("SwapEndian");
            r->SwapEndian(swap = !swap);
            break;
          case 1:
            off = work(pos + 1);
            ev("SetRelativeOrigin %llu", (unsigned long long)off);
            r->SetRelativeOrigin(off, false);
            break;
          case 2:
            if (kind != 2) { // a position that cannot be had is not kept
              ev("Push");
              r->Push();
              save = pos;
            }
            break;
          default:
            if (kind != 2) {
              ev("Pop");
              r->Pop();
              pos = save;
            }
          }
          break;
        case 0: {
          uint64_t to = work(data.size() + 1);
          ev("Seek %llu", (unsigned long long)to);
          r->Seek(to - off);
          pos = to;
          break;
        }
        case 1: {
          uint64_t back = work(data.size() + 1);
          ev("Seek end -%llu", (unsigned long long)back);
          r->Seek(-(int64_t)back, std::ios_base::end);
          pos = data.size() - back;
          break;
        }
        case 2: {
          ev("GetSize");
          uint64_t s = r->GetSize();
          SIM_CHECK(!r->IsValid() || s + off == data.size() ||
                        (fs::fired().seek && s + off == (uint64_t)-1), "size",
                    "GetSize() is %llu, the file has %zu bytes from %llu",
                    (unsigned long long)s, data.size(), (unsigned long long)off);
          break;
        }
        case 3: { // carry on with a moved reader
          ev("move");
          std::unique_ptr<BinReader> q(new BinReader(std::move(*r)));
          if (work(2))
            r.reset();
          r = std::move(q);
          break;
        }
        default: {
          size_t len = some_size();
          std::string b(len + 4, '\x77');
          bool item = len == 4 && work(2);
          ev("read %zu at %llu", len, (unsigned long long)pos);
          if (item) {
            uint32 v = 0x77777777;
            r->Read(v);
            if (swap)
              v = __builtin_bswap32(v);
            memcpy(&b[0], &v, 4);
          } else {
            r->ReadBuffer(&b[0], len);
          }
          std::string want = data.substr(pos, len);
          if (r->IsValid()) {
            SIM_CHECK(want.size() == len, "state",
                      "a reader past its end says it is valid");
            SIM_CHECK(!b.compare(0, len, want), "content",
                      "%zu bytes at %llu differ from the file", len,
                      (unsigned long long)pos);
            pos += len;
          } else {
            size_t k = 0;
            while (k < want.size() && b[k] == want[k])
              k++;
            bool ok = false;
            for (size_t j = k + 1; j-- > 0 && !ok;) {
              ok = true;
              for (size_t x = j; x < len && ok; x++)
                ok = b[x] == '\x77';
            }
            SIM_CHECK(ok, "fabricated",
                      "a failed read delivered bytes that are not in the file");
            SIM_CHECK(want.size() < len || fs::fired().read || fs::fired().seek,
                      "state", "reading failed without a fault");
            SIM_CHECK(want.size() == len || fs::fired().read || k == want.size(),
                      "lost", "%zu of %zu bytes up to the end of the file arrived",
                      k, want.size());
          }
          b.resize(len + 4);
          SIM_CHECK(!b.compare(len, 4, "\x77\x77\x77\x77"), "overrun",
                    "a read wrote past the requested size");
        }
        }
        if (!r->IsValid())
          break;
        uint64_t t = r->Tell();
        // a position query has no way to report that it failed but -1
        if (r->IsValid() && !(fs::fired().seek && t + off == (uint64_t)-1))
          SIM_CHECK(t + off == pos, "position", "Tell() is %llu from %llu instead of %llu",
                    (unsigned long long)t, (unsigned long long)off,
                    (unsigned long long)pos);
      }
      SIM_CHECK(r->IsValid() || fs::fired().hard() || pos <= data.size(),
                "state", "the reader failed without a fault");
    }
  }
  SIM_CHECK(fs::open_handles() == 0, "leak", "%d descriptors are still open",
            fs::open_handles());
  SIM_CHECK(!there || fs::get(other ? "/b" : A) == data, "content",
            "reading changed the file");
  if (!fs::fired().hard() && !fs::fired().eintr && !fs::fired().shortIo)
    trivial();
  fs::end();
}

void file_writer() {
  fs::Cfg c;
  faults(c);
  int kind = draw(FAULT, 7);
  if (kind == 1)
    c.writeErr = 20 + draw(FAULT, 500);
  if (kind == 2)
    c.seekErr = 20 + draw(FAULT, 300);
  if (kind == 3)
    c.openErr = 512;
  if (kind == 4)
    c.diskLimit = draw(FAULT, 40000);
  if (kind == 5)
    c.crashAt = 1 + draw(FAULT, 40);
  if (kind == 6)
    c.closeErr = 512;
  fs::begin(c);
  std::string top, A = some_path(top);
  bool old = work(2);
  std::string oldData = old ? bytes(some_size(), 99) : "";
  if (old)
    fs::put(A, oldData);
  int obstacle = work(12);
  if (obstacle == 11)
    fs::deny(old ? A : top, true);
  if (obstacle == 10 && !old)
    fs::make_dir(A);
  bool can = obstacle < 10 || (obstacle == 10 && old);
  bool sequential = work(2);
  std::string model;
  uint64_t pos = 0, synced = 0;
  bool opened = false, valid = true, moved = false;
  {
    std::unique_ptr<BinWritter> w;
    int how = work(3);
    for (int tries = 0; tries < 3 && !opened && !fs::crashed(); tries++) {
      uint64_t before = fs::fired().open;
      bool threw = false;
      try {
        std::string p = A;
        if (!w && how == 0)
          w.reset(new BinWritter(p));
        else if (!w && how == 1)
          w.reset(new BinWritter(p.c_str()));
        else {
          if (!w)
            w.reset(new BinWritter());
          if (work(2))
            w->Open(p);
          else
            w->Open(p.c_str());
        }
        opened = true;
      } catch (const es::FileInvalidAccessError &e) {
        threw = true;
        SIM_CHECK(strstr(e.what(), A.c_str()), "report",
                  "the error does not name the file: %s", e.what());
      }
      bool expect = can && fs::fired().open == before && !fs::crashed();
      SIM_CHECK(expect || threw, "report",
                "a file that could not be created was not reported");
      SIM_CHECK(!expect || opened, "report",
                "a file that can be created was reported as inaccessible");
      if (!can)
        break;
    }
    if (opened && work(12) == 0) {
      // opened again while in use: reported, or it writes the other file
      bool threw = false;
      ev("open /b/c again");
      try {
        if (work(2))
          w->Open(std::string("/b/c"));
        else
          w->Open("/b/c");
      } catch (const es::FileInvalidAccessError &e) {
        threw = true;
        SIM_CHECK(strstr(e.what(), "/b/c"), "report",
                  "the error does not name the file: %s", e.what());
        SIM_CHECK(!w->IsValid(), "state",
                  "a writer whose opening failed says it is valid");
      }
      SIM_CHECK(threw || fs::crashed(), "report",
                "a file that could not be created was not reported");
      valid = false;
    } else if (opened) {
      size_t n = 1 + work(14);
      uint64_t off = 0, save = 0;
      bool swap = false;
      for (size_t i = 0; i < n; i++) {
        bool sync = false;
        switch (work(9)) {
        case 5:
          switch (work(4)) {
          case 0:
            ev("SwapEndian");
            w->SwapEndian(swap = !swap);
            break;
          case 1:
            off = work(pos + 1);
            ev("SetRelativeOrigin %llu", (unsigned long long)off);
            w->SetRelativeOrigin(off, false);
            break;
          case 2:
            if (!c.seekErr) {
              ev("Push");
              w->Push();
              save = pos;
            }
            break;
          default:
            if (!c.seekErr && (!sequential || save == pos)) {
              ev("Pop");
              w->Pop();
              pos = save;
              sync = true;
            }
          }
          break;
        case 0: {
          uint64_t to = sequential ? pos : work(model.size() + 1);
          ev("Seek %llu", (unsigned long long)to);
          w->Seek(to - off);
          pos = to;
          sync = true;
          break;
        }
        case 1: {
          ev("GetSize");
          uint64_t s = w->GetSize();
          SIM_CHECK(!w->IsValid() || s + off == model.size() ||
                        (fs::fired().seek && s + off == (uint64_t)-1), "size",
                    "GetSize() is %llu, %zu bytes were written",
                    (unsigned long long)s, model.size());
          sync = true;
          break;
        }
        case 2: {
          ev("move");
          moved = true;
          std::unique_ptr<BinWritter> q(new BinWritter(std::move(*w)));
          if (work(2))
            w.reset();
          w = std::move(q);
          break;
        }
        case 3: {
          uint32 v = (uint32)draw_u64(WORK);
          ev("Write %x", v);
          w->Write(v);
          if (swap)
            v = __builtin_bswap32(v);
          if (pos + 4 > model.size())
            model.resize(pos + 4);
          memcpy(&model[pos], &v, 4);
          pos += 4;
          break;
        }
        case 4: {
          // padding builds on the position, which must be known
          if (c.seekErr)
            break;
          int al = 16 << work(3);
          uint64_t pad = (al - (pos - off) % al) % al;
          ev("ApplyPadding %d", al);
          w->ApplyPadding(al);
          if (!pad)
            break;
          if (pos + pad > model.size())
            model.resize(pos + pad);
          memset(&model[pos], 0, pad);
          pos += pad;
          break;
        }
        default: {
          std::string b = bytes(some_size(), work(256));
          ev("write %zu at %llu", b.size(), (unsigned long long)pos);
          w->WriteBuffer(b.data(), b.size());
          if (b.empty())
            break;
          if (pos + b.size() > model.size())
            model.resize(pos + b.size());
          model.replace(pos, b.size(), b);
          pos += b.size();
        }
        }
        valid = w->IsValid();
        if (fs::crashed())
          break;
        if (!valid) {
          SIM_CHECK(fs::fired().hard(), "state",
                    "the writer failed without a fault");
          break;
        }
        if (work(4) == 3) {
          uint64_t t = w->Tell();
          SIM_CHECK(t + off == pos || fs::fired().seek || fs::crashed() || !w->IsValid(),
                    "position", "Tell() is %llu from %llu instead of %llu",
                    (unsigned long long)t, (unsigned long long)off,
                    (unsigned long long)pos);
          if (fs::crashed())
            break;
        }
        if (sync) {
          std::string now = fs::get(A);
          SIM_CHECK(now == model, "lost",
                    "after a seek %zu bytes are stored, %zu were written",
                    now.size(), model.size());
          synced = model.size();
        }
      }
      valid = valid && w->IsValid();
    }
  }
  if (fs::crashed())
    fs::restart();
  SIM_CHECK(fs::open_handles() == 0, "leak", "%d descriptors are still open",
            fs::open_handles());
  std::string now = fs::get(A);
  if (opened) {
    bool hard = fs::fired().write || fs::fired().full || fs::fired().seek;
    if (!hard && kind != 5)
      SIM_CHECK(now == model, "lost",
                "%zu bytes are stored, %zu were written without a fault",
                now.size(), model.size());
    if (!hard) // at most the tail is missing when the process died
      SIM_CHECK(now.size() <= model.size() &&
                    (!sequential || !model.compare(0, now.size(), now)),
                "content", "what is stored is not a prefix of what was written");
    // libstdc++ may repeat a partly failed transfer when it closes: only what
    // was confirmed counts
    if (sequential)
      SIM_CHECK(now.size() >= synced &&
                    !model.compare(0, synced, now, 0, synced),
                "lost", "%zu bytes were confirmed, %zu are stored",
                (size_t)synced, now.size());
  } else if (old) {
    SIM_CHECK(now == oldData || fs::fired().open || kind == 5, "content",
              "a file that could not be opened was changed");
  }
  (void)moved;
  if (!fs::fired().hard() && !fs::fired().eintr && !fs::fired().shortIo)
    trivial();
  fs::end();
}

void c13() {
  if (work(2))
    file_writer();
  else
    file_reader();
}
SIM_PROP_BATCH("C13", c13);

// ---------------------------------------------------------- trees of files

struct Tree {
  std::vector<std::string> dirs{""}; // relative to the root, "" is the root
  std::map<std::string, fs::Type> items; // everything else, relative
};
const char *const filterNames[] = {".txt", "x", ".dat", "data", "zz", "q\\r"};
std::string rnd_name(Tree &t) {
  static const char *parts[] = {"a", "b", "data", ".hid", "x.txt", "y.dat",
                                "f.txt.bak", "sp ace", "z", "w.TXT", "..x",
                                "...", "q\\r", ".a", "e\"", "q\\",
                                "\xff*", "n\nl", "\"e\"", "-", "~"};
  std::string n = parts[work(21)];
  if (work(2))
    n += std::to_string(work(20));
  switch (work(12)) {
  case 10: // as a filter is
    n = filterNames[work(6)];
    break;
  case 11: // as long as names get
    n += std::string(work(4) ? work(100) : 255 - n.size() - work(10), 'l');
    break;
  }
  (void)t;
  return n;
}
void grow(Tree &t, const std::string &root, size_t n) {
  for (size_t i = 0; i < n; i++) {
    std::string d = t.dirs[work(t.dirs.size())];
    std::string p = d + "/" + rnd_name(t);
    if (t.items.count(p) ||
        std::find(t.dirs.begin(), t.dirs.end(), p) != t.dirs.end())
      continue;
    fs::Type ty = fs::FILE_;
    switch (work(10)) {
    case 0:
    case 1:
    case 2:
      ty = fs::DIR_;
      break;
    case 3:
      ty = fs::LINK_;
      break;
    case 4: {
      static const fs::Type sp[] = {fs::FIFO_, fs::SOCK_, fs::CHR_, fs::BLK_};
      ty = sp[work(4)];
      break;
    }
    default:
      break;
    }
    int e = 0;
    if (ty == fs::DIR_) {
      e = fs::make_dir(root + p);
      if (!e)
        t.dirs.push_back(p);
      continue;
    }
    if (ty == fs::LINK_) {
      std::string target;
      switch (work(4)) {
      case 0:
        target = root + t.dirs[work(t.dirs.size())]; // maybe a cycle
        break;
      case 1:
        target = "nowhere";
        break;
      case 2:
        target = ".";
        break;
      default:
        target = t.items.empty() ? "x" : root + t.items.begin()->first;
      }
      e = fs::make_link(root + p, target.empty() ? "/" : target);
    } else if (ty == fs::FILE_) {
      e = fs::put(root + p, "data");
    } else {
      e = fs::make_special(root + p, ty);
    }
    if (!e)
      t.items[p] = ty;
  }
}
std::string base_name(const std::string &p) {
  return p.substr(p.rfind('/') + 1);
}

void c20() {
  fs::Cfg c;
  c.shuffle = draw(FAULT, 2);
  c.dtUnknown = draw(FAULT, 3) == 2;
  int kind = draw(FAULT, 4);
  bool dirFaults = kind == 1, statFaults = kind == 2, adversary = kind == 3;
  if (dirFaults)
    c.dirErr = 30 + draw(FAULT, 400);
  if (statFaults)
    c.statErr = 30 + draw(FAULT, 400);
  fs::begin(c);
  // the folder's own name
  static const char *tops[] = {"r", "r'", "r.txt", "r ", ".r", "...", "r\xc3\xa4", "r`"};
  const std::string top = tops[work(8) < 4 ? 0 : work(8)], root = "/" + top;
  fs::make_dir(root);
  fs::make_dir("/cwd");
  Tree t;
  // deep chains now and then
  if (work(6) == 0) {
    std::string d;
    const size_t len = work(5) ? 0 : work(90); // to long paths, too
    for (size_t i = 1 + work(40); i; i--) {
      d += "/n" + std::string(len, 'n');
      fs::make_dir(root + d);
      t.dirs.push_back(d);
    }
  }
  grow(t, root, work(30));
  std::set<std::string> denied;
  if (draw(FAULT, 4) == 3) {
    for (size_t i = 1; i < t.dirs.size(); i++)
      if (draw(FAULT, 4) == 3) {
        fs::deny(root + t.dirs[i], true);
        denied.insert(t.dirs[i]);
        count("fault.unreadable_folder");
      }
  }
  std::vector<std::string> filters;
  for (size_t i = work(3); i; i--)
    filters.push_back(work(30) ? filterNames[work(6)] : "");
  auto wanted = [&](const std::string &p) {
    if (filters.empty())
      return true;
    std::string b = base_name(p);
    for (auto &f : filters)
      if (b.find(f) != b.npos)
        return true;
    return false;
  };
  DirectoryScanner s;
  for (auto &f : filters)
    s.AddFilter(f);
  // how the folder is named
  std::string arg = root, pre = root + "/";
  switch (work(5)) {
  case 4: // a quote left over from the command line
    arg = root + '"';
    break;
  case 1:
    arg = root + "/";
    break;
  case 2:
    fs::set_cwd(root);
    arg = "";
    pre = "";
    break;
  case 3:
    fs::set_cwd("/cwd");
    arg = ".." + root;
    pre = ".." + root + "/";
    break;
  }
  // every call may see the tree changed
  std::map<std::string, fs::Type> always = t.items; // there all the time
  std::set<std::string> ever, everDirs;
  for (auto &i : t.items)
    ever.insert(i.first);
  if (adversary) {
    fs::on_op = [&](const char *, const std::string &) {
      if (draw(FAULT, 4) < 3)
        return;
      mem::NoFail nf;
      count("fault.tree_changed_during_scan");
      if (draw(FAULT, 2) && !always.empty()) {
        auto it = always.begin();
        std::advance(it, draw(FAULT, always.size()));
        std::string p = it->first;
        always.erase(it);
        fs::remove_(root + p);
        ev("ADVERSARY removes %s", p.c_str());
        if (draw(FAULT, 3) == 2 && !fs::make_dir(root + p))
          ev("ADVERSARY puts a folder there");
      } else {
        std::string p = t.dirs[draw(FAULT, t.dirs.size())] + "/new" +
                        std::to_string(draw(FAULT, 30)) + ".txt";
        if (fs::type(root + p) == fs::NONE && !fs::put(root + p, "x")) {
          ev("ADVERSARY adds %s", p.c_str());
          ever.insert(p);
        }
      }
    };
  }
  int scans = 1 + (work(5) == 0);
  bool memory = false;
  for (int k = 0; k < scans; k++) {
    if (draw(FAULT, 8) == 7)
      mem::fail_at(1 + draw(FAULT, 60));
    try {
      s.Scan(arg);
      mem::off();
    } catch (const std::bad_alloc &) {
      mem::off();
      SIM_CHECK(mem::fired(), "report", "out of memory without a reason");
      ev("out of memory");
      memory = true;
    }
  }
  fs::on_op = nullptr;
  auto lost = [&](const std::string &p) { // below an unreadable folder
    for (auto &d : denied)
      if (!p.compare(0, d.size() + 1, d + "/"))
        return true;
    return false;
  };
  std::map<std::string, int> got;
  std::vector<std::string> listed;
  switch (work(3)) {
  case 0:
    listed = s.Files();
    break;
  case 1:
    for (auto i = s.cbegin(); i != s.cend(); ++i)
      listed.push_back(*i);
    break;
  default:
    for (auto &f : s)
      listed.push_back(f);
  }
  SIM_CHECK(listed.size() == s.Files().size(), "iterate",
            "iteration shows %zu of %zu files", listed.size(), s.Files().size());
  for (auto &f : listed) {
    SIM_CHECK(!f.compare(0, pre.size(), pre), "path",
              "%s does not lie in the scanned folder", f.c_str());
    got["/" + f.substr(pre.size())]++;
  }
  bool faulted = fs::fired().dir || fs::fired().stat;
  for (auto &g : got) {
    bool known = ever.count(g.first);
    // a folder whose type could not be determined may show up as an entry
    if (!known && fs::fired().stat && c.dtUnknown)
      continue;
    // the adversary's folders replace files: either form was true once
    SIM_CHECK(known, "invented", "%s was listed and is no file of the tree",
              g.first.c_str());
    SIM_CHECK(wanted(g.first), "filter", "%s was listed against the filters",
              g.first.c_str());
    SIM_CHECK(g.second <= scans, "repeated", "%s was listed %d times in %d scans",
              g.first.c_str(), g.second, scans);
    SIM_CHECK(!lost(g.first), "invented", "%s was listed from an unreadable folder",
              g.first.c_str());
  }
  // a failing folder costs what lies in and below it, nothing else
  std::set<std::string> bad;
  for (auto q : fs::failed_paths()) {
    if (q.size() >= 2 && !q.compare(q.size() - 2, 2, "/."))
      q.resize(q.size() - 2);
    if (q == ".")
      q = "";
    if (!q.compare(0, pre.size(), pre))
      q = "/" + q.substr(pre.size());
    else
      q = ""; // the root itself
    while (!q.empty() && q.back() == '/')
      q.pop_back();
    bad.insert(q);
  }
  auto below_bad = [&](const std::string &p) {
    for (auto &d : bad)
      if (p == d || !p.compare(0, d.size() + 1, d + "/"))
        return true;
    return false;
  };
  for (auto &i : always)
    if (!memory && wanted(i.first) && !lost(i.first) &&
        !(faulted && below_bad(i.first)))
      SIM_CHECK(got[i.first] == scans, "missing",
                "%s was listed %d times in %d scans", i.first.c_str(),
                got[i.first], scans);
  if (work(6) == 5) { // no folder at all
    std::string no = root + (work(2) ? "/no/such" : "/n0such");
    for (auto &i : always)
      if (i.second == fs::FILE_ && work(2))
        no = root + i.first;
    size_t had = s.Files().size();
    s.Scan(no);
    SIM_CHECK(s.Files().size() == had, "invented",
              "a scan of something that is no folder lists files");
  }
  SIM_CHECK(fs::open_handles() == 0, "leak", "%d folders are still open",
            fs::open_handles());
  SIM_CHECK(fs::mutations() == 0, "changed", "scanning changed the tree");
  // scanning again after clearing, without faults: complete
  fs::cfg().dirErr = fs::cfg().statErr = 0;
  s.Clear();
  SIM_CHECK(s.Files().empty(), "clear", "Clear() left files");
  s.ClearFilters();
  s.Scan(arg);
  std::set<std::string> all(s.begin(), s.end());
  SIM_CHECK(all.size() == s.Files().size(), "repeated",
            "a quiet scan lists a file twice");
  for (auto &i : always)
    if (!lost(i.first))
      SIM_CHECK(all.count(pre + i.first.substr(1)), "missing",
                "a quiet scan misses %s", i.first.c_str());
  if (t.items.size() < 2)
    trivial();
  fs::end();
}
SIM_PROP_BATCH("C20", c20);

// ------------------------------------------------------------------- C21

std::string part() {
  static const char *p[] = {"a", "b", "a-b", "long name", "x.y", "q"};
  switch (work(30)) {
  case 27:
    return ".";
  case 28:
    return "..";
  case 29:
    return work(3) ? std::string() : std::string(200 + work(100), 'n');
  }
  return p[work(6)];
}
std::string rel_path() {
  std::string r;
  for (size_t i = work(5); i; i--)
    r += part() + (work(4) ? "/" : "\\");
  if (work(6))
    r += "file" + std::to_string(work(4)) + ".txt";
  return r;
}
std::string norm(std::string s) {
  std::replace(s.begin(), s.end(), '\\', '/');
  return s;
}
// without . and .. and empty parts
std::string plain(const std::string &p) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < p.size()) {
    size_t e = p.find('/', i);
    if (e == p.npos)
      e = p.size();
    std::string c = p.substr(i, e - i);
    i = e + 1;
    if (c == "..") {
      if (!v.empty())
        v.pop_back();
    } else if (!c.empty() && c != ".") {
      v.push_back(c);
    }
  }
  std::string r;
  for (auto &c : v)
    r += "/" + c;
  return r;
}
std::vector<std::string> parents(const std::string &p) {
  std::vector<std::string> r;
  for (size_t i = 0; i < p.size(); i++)
    if (p[i] == '/')
      r.push_back(p.substr(0, i));
  return r;
}

void c21() {
  fs::Cfg c;
  int kind = draw(FAULT, 5);
  if (kind == 1)
    c.mkdirErr = 50 + draw(FAULT, 600);
  if (kind == 2)
    c.crashAt = 1 + draw(FAULT, 14);
  bool adversary = kind == 3;
  fs::begin(c);
  fs::make_dir("/w");
  fs::make_dir("/w/out");
  fs::set_cwd("/w");
  // what is there already
  Tree t;
  for (size_t i = work(6); i; i--) {
    std::string at = "/w/";
    if (work(2))
      at += "out/";
    std::string q = at + part();
    if (work(2))
      q += "/" + part();
    switch (work(5)) {
    case 0:
      fs::put(q, "keep");
      break;
    case 1:
      fs::make_link(q, work(2) ? "/w/out" : "missing");
      break;
    default:
      fs::make_dir(q);
    }
  }
  int form = work(3); // one path; list with prefix; absolute path
  std::string prefix = form == 1 ? (work(2) ? "out/" : "/w/out/") : "";
  std::vector<std::string> files;
  size_t n = form == 1 ? work(6) : 1;
  for (size_t i = 0; i < n; i++)
    files.push_back((form == 2 ? "/w/" : "") + rel_path());
  if (work(12) == 11) { // all far below
    std::string far;
    for (size_t i = 1 + work(4); i; i--)
      far += std::string(60 + work(190), 'p') + "/";
    for (auto &f : files)
      f = form == 2 ? "/w/" + far + f.substr(3) : far + f;
  }
  struct Item {
    std::string name;
    int tag;
  };
  std::vector<Item> items;
  for (auto &f : files)
    items.push_back({f, 0});
  auto run = [&] {
    if (form == 1)
      mkdirs(prefix, items, [](const Item &i) { return es::string_view(i.name); });
    else
      mkdirs(files[0]);
  };
  for (auto &f : files)
    ev("mkdirs %s + %s", prefix.c_str(), f.c_str());
  std::set<std::string> before, allowed;
  for (auto &p : fs::list())
    before.insert(p);
  std::map<std::string, fs::Type> types;
  bool links = false;
  for (auto &p : before) {
    types[p] = fs::type(p);
    links = links || types[p] == fs::LINK_;
  }
  std::vector<std::string> need; // folders to make, parents first
  bool dots = false; // one folder by several names
  for (auto &f : files)
    dots = dots || ("/" + norm(f)).find("/.") != f.npos;
  for (auto &f : files)
    for (auto &p : parents(norm(f)))
      if (!(prefix + p).empty())
        need.push_back(prefix + p);
  std::set<std::string> byOthers;
  if (adversary)
    fs::on_op = [&](const char *op, const std::string &path) {
      if (strcmp(op, "mkdir") || draw(FAULT, 3) < 2)
        return;
      mem::NoFail nf;
      // another program makes the same folder (or takes the name)
      if (fs::type(path) != fs::NONE)
        return;
      std::vector<std::string> l0 = fs::list();
      int e = draw(FAULT, 5) == 4 ? fs::put(path, "theirs") : fs::make_dir(path);
      if (!e) {
        ev("ADVERSARY takes %s", path.c_str());
        count("fault.concurrent_creation");
        for (auto &p : fs::list())
          if (std::find(l0.begin(), l0.end(), p) == l0.end())
            byOthers.insert(p);
      }
    };
  bool memory = false;
  if (kind == 4)
    mem::fail_at(1 + draw(FAULT, 40));
  try {
    run();
    mem::off();
  } catch (const std::bad_alloc &) {
    mem::off();
    SIM_CHECK(mem::fired(), "report", "out of memory without a reason");
    ev("out of memory");
    memory = true;
  }
  bool crashed = fs::crashed();
  if (crashed)
    fs::restart();
  fs::on_op = nullptr;
  auto resolved = [&](const std::string &p) { return fs::type_follow(p); };
  // nothing that was there is touched
  for (auto &p : before)
    SIM_CHECK(fs::type(p) == types[p] &&
                  (types[p] != fs::FILE_ || fs::get(p) == "keep"),
              "damaged", "%s was changed", p.c_str());
  auto complete = [&](const char *when) {
    for (auto &p : need) {
      // blocked by something that is no folder, or dangling?
      bool blocked = false;
      std::vector<std::string> up = parents(p + "/");
      for (auto &u : up) {
        if (u.empty())
          continue;
        fs::Type own = fs::type(u), ty = resolved(u);
        if (own != fs::NONE && ty != fs::DIR_)
          blocked = true;
        if (u.size() - (u.rfind('/') + 1) > 255) // npos + 1 is 0
          blocked = true;
      }
      if (blocked)
        continue;
      SIM_CHECK(resolved(p) == fs::DIR_, "missing",
                "%s: the folder %s does not exist", when, p.c_str());
    }
  };
  bool faulted = crashed || memory || fs::fired().mkdir;
  if (!faulted)
    complete("after the call");
  else if (!crashed && !memory && !links && !dots) {
    // a failure stops only what lies below it: a folder is there unless it or
    // a folder above it failed
    size_t miss = 0;
    std::set<std::string> tops;
    for (auto &p : need)
      if (fs::type(p) == fs::NONE) {
        size_t s = p.rfind('/');
        std::string up = s == p.npos ? "" : p.substr(0, s);
        if (up.empty() || fs::type_follow(up) == fs::DIR_) {
          if (p.size() - (p.rfind('/') + 1) > 255)
            continue; // no such name
          tops.insert(plain(p[0] == '/' ? p : "/w/" + p));
          miss++;
        }
      }
    SIM_CHECK(tops.size() <= fs::fired().mkdir, "missing",
              "%llu calls failed but %zu separate folders are missing",
              (unsigned long long)fs::fired().mkdir, tops.size());
  }
  // once faults stop, running it again completes the work
  fs::cfg().mkdirErr = 0;
  run();
  complete("after running it again");
  // nothing but the needed folders came into being
  std::set<std::string> okNew;
  for (auto &p : fs::list()) {
    if (before.count(p) || byOthers.count(p))
      continue;
    SIM_CHECK(fs::type(p) == fs::DIR_, "extra", "%s came into being", p.c_str());
    // it must be a needed folder, maybe seen through a link
    bool ok = false;
    for (auto &q : need) {
      std::string abs = plain(q[0] == '/' ? q : "/w/" + q);
      if (abs == p || (links && base_name(q) == base_name(p)))
        ok = true;
    }
    SIM_CHECK(ok, "extra", "the folder %s came into being", p.c_str());
  }
  // and a third time nothing happens
  uint64_t m = fs::mutations();
  run();
  SIM_CHECK(fs::mutations() == m, "repeat",
            "running it again changes a complete tree");
  if (need.empty())
    trivial();
  fs::end();
}
SIM_PROP_BATCH("C21", c21);

// ------------------------------------------------------------------- C22

void c22() {
  fs::Cfg c;
  int kind = draw(FAULT, 3);
  if (kind == 1)
    c.statErr = 512;
  fs::begin(c);
  fs::make_dir("/d");
  fs::make_dir("/d/e");
  std::vector<std::string> paths;
  static const fs::Type ty[] = {fs::FILE_, fs::DIR_,  fs::FIFO_,
                                fs::SOCK_, fs::CHR_, fs::BLK_};
  for (size_t i = 0; i < 6; i++) {
    std::string p = std::string(work(2) ? "/d/" : "/d/e/") + "n" + std::to_string(i);
    fs::Type t = ty[work(6)];
    if (t == fs::FILE_)
      fs::put(p, work(2) ? "x" : "");
    else if (t == fs::DIR_)
      fs::make_dir(p);
    else
      fs::make_special(p, t);
    paths.push_back(p);
  }
  for (size_t i = work(4); i; i--) {
    std::string p = "/d/l" + std::to_string(i);
    fs::make_link(p, work(4) ? paths[work(paths.size())] : "gone");
    paths.push_back(p);
  }
  paths.push_back("/d/e");
  paths.push_back("e");
  paths.push_back("./e/.");
  paths.push_back("../d/e/n" + std::to_string(work(6)));
  paths.push_back("/d/none");
  paths.push_back("/d/none/deeper");
  paths.push_back("");
  paths.push_back("/");
  paths.push_back(paths[0] + "/");
  paths.push_back(paths[0] + "/x");
  paths.push_back("/d/" + std::string(300, 'n'));
  if (work(3) == 0)
    fs::deny("/d/e", true);
  if (work(3) == 0)
    fs::deny(paths[work(6)], true);
  fs::set_cwd("/d");
  if (kind == 2)
    fs::on_op = [&](const char *, const std::string &path) {
      if (draw(FAULT, 3) < 2)
        return;
      mem::NoFail nf;
      if (fs::remove_(path)) {
        ev("ADVERSARY removes %s", path.c_str());
        count("fault.removed_before_call");
        if (draw(FAULT, 2))
          fs::make_dir(path);
      }
    };
  for (size_t i = 1 + work(8); i; i--) {
    std::string p = paths[work(paths.size())];
    uint64_t f0 = fs::fired().stat;
    uint64_t o0 = fs::ops();
    FileType_e got = FileType(p);
    bool failed = fs::fired().stat != f0;
    fs::Type t = p.empty() ? fs::NONE : fs::type_follow(p); // after the call
    FileType_e want = failed            ? FileType_e::Error
                      : t == fs::NONE   ? FileType_e::Error
                      : t == fs::DIR_   ? FileType_e::Directory
                      : t == fs::FILE_  ? FileType_e::File
                                        : FileType_e::Invalid;
    ev("FileType %.40s -> %d", p.c_str(), got);
    // with a changing tree only calls that look once can be judged
    if (kind != 2 || fs::ops() == o0 + 1)
      SIM_CHECK(got == want, "type", "%.60s: FileType() is %d, it is %d",
                p.c_str(), got, want);
  }
  SIM_CHECK(fs::mutations() == 0 && fs::open_handles() == 0, "changed",
            "asking for a type left traces");
  fs::end();
}
SIM_PROP_BATCH("C22", c22);

} // namespace
