// A simulated medium and the stream buffer a reader or writer uses it through.
#pragma once
#include "core.hpp"
#include "mem.hpp"
#include <cstring>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace sim {

struct Medium {
  std::string data;            // what is really stored
  uint64_t limit = ~0ull;      // full beyond this size
  uint64_t holeAt = 0, holeLen = 0; // readers see that many zeros there
  uint64_t size() const { return data.size() + holeLen; }
  // what a reader sees
  std::string view(uint64_t at, uint64_t n) const {
    mem::NoFail nf;
    std::string r;
    for (; n && at < size(); at++, n--)
      r.push_back(at < holeAt || !holeLen ? data[at]
                  : at < holeAt + holeLen ? 0
                                          : data[at - holeLen]);
    return r;
  }
  // faults, counted in device calls since arming (0: off)
  uint64_t readThrowAt = 0;    // that transfer fails hard (badbit)
  uint64_t readEofAt = 0;      // that transfer reports a premature end
  bool sticky = false;         // ... and all later ones too
  uint64_t writeFailAt = 0;    // that transfer fails
  bool writeThrows = false;
  uint64_t loseAt = 0;         // that write transfer is acknowledged but lost
  uint64_t seekFailAt = 0;     // that seek fails
  uint64_t reads = 0, writes = 0, seeks = 0, calls = 0;
  uint64_t fired = 0;          // faults that happened
  uint64_t readFired = 0, writeFired = 0, seekFired = 0;
  uint64_t callLimit = 400000;
  void tick() {
    if (++calls > callLimit)
      fail("progress", "no progress: more than %llu device calls",
           (unsigned long long)callLimit);
    add_steps(1);
    add_time_ns(1000);
  }
};

class DevBuf : public std::streambuf {
public:
  Medium &m;
  size_t rchunk, wchunk;
  bool knows; // tells how much is left, as files do
  DevBuf(Medium &m_, size_t r = 16, size_t w = 16)
      : m(m_), rchunk(r), wchunk(w), knows(work(2)) {}
  ~DevBuf() override {
    try {
      flush_();
    } catch (const std::exception &) {
    }
  }

  uint64_t pos = 0; // medium position: end of the get area / start of the put
  char rb[4096], wb[4096];
  uint64_t where() const {
    return pptr() > pbase() ? pos + (pptr() - pbase())
                            : pos - (egptr() - gptr());
  }

protected:
  bool hit(uint64_t n, uint64_t at) const {
    return at && (n == at || (m.sticky && n > at));
  }
  bool flush_() {
    size_t n = pptr() - pbase();
    if (!n)
      return true;
    setp(wb, wb + std::min(wchunk, sizeof wb));
    pos_put(n);
    return ok_;
  }
  bool ok_ = true;
  void pos_put(size_t n) {
    m.tick();
    m.writes++;
    ok_ = true;
    if (hit(m.writes, m.writeFailAt)) {
      m.fired++;
      m.writeFired++;
      ev("FAULT write of %zu at %llu fails", n, (unsigned long long)pos);
      count("fault.write_error");
      shape(pos * 3 + 1);
      ok_ = false;
      if (m.writeThrows)
        throw std::runtime_error("device write error");
      return;
    }
    size_t k = n;
    if (pos + n > m.limit) {
      k = pos < m.limit ? m.limit - pos : 0;
      m.fired++;
      m.writeFired++;
      ev("FAULT device full at %llu", (unsigned long long)m.limit);
      count("fault.device_full");
      shape(pos * 3 + 2);
      ok_ = false;
    }
    // a hole can only be written behind
    const uint64_t before = m.holeAt ? 0 : m.holeLen;
    if (pos < before || pos - before + k > (16u << 20)) { // runaway writer
      ok_ = false;
      return;
    }
    if (hit(m.writes, m.loseAt)) {
      m.fired++;
      ev("FAULT write of %zu at %llu lost", n, (unsigned long long)pos);
      count("fault.lost_write");
      shape(pos * 3 + 5);
    } else {
      mem::NoFail nf;
      const uint64_t at = pos - before;
      if (at + k > m.data.size())
        m.data.resize(at + k, 0);
      memcpy(&m.data[at], wb, k);
    }
    pos += k;
  }
  std::streamsize showmanyc() override {
    return !knows          ? 0
           : pos < m.size() ? std::streamsize(m.size() - pos)
                            : -1;
  }
  int_type overflow(int_type c) override {
    drop_get();
    if (!pbase())
      setp(wb, wb + std::min(wchunk, sizeof wb));
    else if (!flush_())
      return traits_type::eof();
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
      *pptr() = traits_type::to_char_type(c);
      pbump(1);
    }
    return traits_type::not_eof(c);
  }
  int sync() override {
    drop_get();
    return flush_() ? 0 : -1;
  }
  void drop_get() {
    if (gptr() != egptr())
      pos -= egptr() - gptr();
    setg(rb, rb, rb);
  }
  int_type underflow() override {
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    if (!flush_())
      return traits_type::eof();
    m.tick();
    m.reads++;
    if (hit(m.reads, m.readThrowAt)) {
      m.fired++;
      m.readFired++;
      ev("FAULT read at %llu fails", (unsigned long long)pos);
      count("fault.read_error");
      shape(pos * 3 + 3);
      throw std::runtime_error("device read error");
    }
    if (hit(m.reads, m.readEofAt)) {
      m.fired++;
      m.readFired++;
      ev("FAULT read at %llu ends prematurely", (unsigned long long)pos);
      count("fault.premature_end");
      shape(pos * 3 + 4);
      return traits_type::eof();
    }
    if (pos >= m.size())
      return traits_type::eof();
    size_t n = std::min<uint64_t>(std::min(rchunk, sizeof rb), m.size() - pos);
    if (m.holeLen) {
      if (pos < m.holeAt) {
        n = std::min<uint64_t>(n, m.holeAt - pos);
        memcpy(rb, m.data.data() + pos, n);
      } else if (pos < m.holeAt + m.holeLen) {
        n = std::min<uint64_t>(n, m.holeAt + m.holeLen - pos);
        memset(rb, 0, n);
      } else {
        memcpy(rb, m.data.data() + pos - m.holeLen, n);
      }
    } else {
      memcpy(rb, m.data.data() + pos, n);
    }
    pos += n;
    setg(rb, rb, rb + n);
    return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir way,
                   std::ios_base::openmode) override {
    m.tick();
    if (off == 0 && way == std::ios_base::cur)
      return pos_type((off_type)where());
    m.seeks++;
    if (hit(m.seeks, m.seekFailAt)) {
      m.fired++;
      m.seekFired++;
      ev("FAULT seek fails");
      count("fault.seek_error");
      shape(m.seeks * 3 + 6);
      return pos_type(off_type(-1));
    }
    uint64_t here = where();
    bool w = false; // seekp and seekg let exceptions through, files throw none
    try {
      w = flush_();
    } catch (const std::exception &) {
    }
    off_type base = way == std::ios_base::beg   ? 0
                    : way == std::ios_base::cur ? (off_type)here
                                                : (off_type)m.size();
    if (!w || base + off < 0)
      return pos_type(off_type(-1));
    setg(rb, rb, rb);
    setp(nullptr, nullptr);
    pos = base + off;
    return pos_type(base + off);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode mo) override {
    return seekoff(off_type(p), std::ios_base::beg, mo);
  }
};

} // namespace sim
