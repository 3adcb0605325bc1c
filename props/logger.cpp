// C04, C05, C06: the logging service.
#include "../sim/core.hpp"
#include "../sim/threads.hpp"
#include "datas/master_printer.hpp"
#include <cstring>
#include <locale>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace sim;

namespace {

constexpr int NSINK = 5;
struct SinkThrow : std::runtime_error {
  SinkThrow() : runtime_error("sink failed") {}
};

struct Sink {
  std::string text; // everything it was given, in order
  int inside = 0;
  int calls = 0;
  int throwAt = 0; // throw on the n-th call from now
};
Sink *g_sinks;
int g_sinkYields;

void sink_take(int s, const char *c) {
  Sink &k = g_sinks[s];
  yield_point();
  SIM_CHECK(c != nullptr, "logger.null_text", "sink %d is given a null text", s);
  {
    NoPreempt np;
    SIM_CHECK(++k.inside == 1, "logger.sink_reentered",
              "two threads are inside of sink %d at once", s);
  }
  for (int i = 0; i < g_sinkYields; i++)
    yield_point();
  // instrumented byte reads: text outside of live memory is detected
  size_t n = 0;
  for (const char *p = c; *p; p++)
    n++;
  {
    NoPreempt np;
    k.inside--;
    k.calls++;
    if (k.throwAt && --k.throwAt == 0) {
      count("fault.sink_throws");
      ev("fault: sink %d throws", s);
      throw SinkThrow();
    }
    k.text.append(c, n);
  }
  yield_point();
}
void sink0(const char *c) { sink_take(0, c); }
void sink1(const char *c) { sink_take(1, c); }
void sink2(const char *c) { sink_take(2, c); }
void sink3(const char *c) { sink_take(3, c); }
void sink4(const char *c) { sink_take(4, c); }
void (*const SINKS[NSINK])(const char *) = {sink0, sink1, sink2, sink3, sink4};

struct Piece {
  int kind; // 0 string 1 int 2 char 3 double(exact) 4 u64
  std::string s;
  long i = 0;
};

struct Msg {
  int thread, k;
  MPType sev = MPType::MSG;
  int sevAt = 0; // before which piece the severity is streamed
  int sev0 = -1; // another severity, streamed at or before sevAt: overruled
  int sev0At = 0;
  bool newline = true;
  std::vector<Piece> pieces;
  std::string text; // expected text
  uint64_t begun = 0, done = 0;
  bool damaged = false;
};

std::string body(size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++)
    r.push_back("abcdefghijklmnopqrstuvwxyz 0123456789.,;:%d\\n/-_=+"[i * 7 % 50]);
  return r;
}

Msg make_msg(int th, int k, bool longOnes) {
  Msg m;
  m.thread = th;
  m.k = k;
  switch (work(5)) {
  case 1:
    m.sev = MPType::WRN;
    break;
  case 2:
    m.sev = MPType::ERR;
    break;
  case 3:
    m.sev = MPType::INF;
    break;
  }
  int np = 1 + work(4);
  Piece id;
  id.kind = 0;
  id.s = "<" + std::to_string(th) + "." + std::to_string(k) + "|";
  m.pieces.push_back(id);
  for (int i = 1; i < np; i++) {
    Piece p;
    p.kind = work(5);
    switch (p.kind) {
    case 0: {
      size_t len = work(20);
      if (longOnes)
        switch (work(6)) {
        case 1:
          len = 2030 + work(40);
          break;
        case 2:
          len = 400 + work(1200);
          break;
        case 3:
          len = work(8) ? 2048 + work(5000) : 60000 + work(12000);
          break;
        }
      p.s = body(len);
      break;
    }
    case 1:
      p.i = (long)work(200000) - 100000;
      p.s = std::to_string((int)p.i);
      break;
    case 2:
      p.i = 'A' + work(26);
      p.s = std::string(1, (char)p.i);
      break;
    case 3:
      p.i = work(64);
      p.s = std::to_string(p.i) + (p.i ? ".5" : ".5");
      break;
    case 4:
      p.i = work(1000000);
      p.s = std::to_string(p.i);
      break;
    }
    m.pieces.push_back(p);
  }
  m.sevAt = work(np + 1);
  if (chance(WORK, 1, 6)) {
    m.sev0 = work(4);
    m.sev0At = work(m.sevAt + 1);
  }
  m.newline = !chance(WORK, 1, 4);
  for (auto &p : m.pieces)
    m.text += p.s;
  if (m.newline)
    m.text += "\n";
  return m;
}

const char *sev_prefix(MPType t) {
  return t == MPType::WRN ? "WARNING: " : t == MPType::ERR ? "ERROR: " : "";
}

void stream_piece(const Piece &p) {
  switch (p.kind) {
  case 0:
    if (p.i == 0 && p.s.size() % 2)
      printer << p.s.c_str();
    else
      printer << p.s;
    break;
  case 1:
    printer << (int)p.i;
    break;
  case 2:
    printer << (char)p.i;
    break;
  case 3:
    printer << (double)p.i + 0.5;
    break;
  case 4:
    printer << (unsigned long)p.i;
    break;
  }
}

void stream_severity(const Msg &m, size_t i) {
  if (m.sev0 >= 0 && i == (size_t)m.sev0At)
    printer << (MPType)m.sev0;
  if (i == (size_t)m.sevAt && (m.sev != MPType::MSG || m.sev0 >= 0))
    printer << m.sev;
}

void log_msg(Msg &m) {
  {
    NoPreempt np;
    m.begun = seq();
    ev("t%d logs <%d.%d| sev=%d len=%zu nl=%d", self_id(), m.thread, m.k,
       (int)m.sev, m.text.size(), m.newline);
  }
  if (m.newline && m.pieces.size() == 1 && m.sev0 < 0 && m.sevAt == 0 &&
      m.sev != MPType::INF) {
    // The macros users log with
    const std::string &text = m.pieces[0].s;
    if (m.sev == MPType::WRN) {
      printwarning(text);
    } else if (m.sev == MPType::ERR) {
      printerror(text.substr(0, 1) << text.substr(1));
    } else {
      printline(text.c_str());
    }
  } else {
    for (size_t i = 0; i <= m.pieces.size(); i++) {
      stream_severity(m, i);
      if (i < m.pieces.size())
        stream_piece(m.pieces[i]);
    }
    if (!m.newline && m.text.size() % 3 == 1)
      printer.FlushAll();
    else
      printer >> (m.newline ? 1 : 0);
  }
  NoPreempt np;
  m.done = seq();
}

const char YEL[] = "\033[38;2;255;255;0m", RED[] = "\033[38;2;255;0;0m",
           RST[] = "\033[0m";

// Parsed delivery
struct Del {
  int thread, k;
  bool tid;
};

// Parses the whole text of a sink into deliveries; violations on anything
// that is not a sequence of whole, exactly rendered messages.
std::vector<Del> parse(int s, const std::string &raw, bool color,
                       const std::vector<std::vector<Msg>> &msgs,
                       bool tidRequired, bool tidAllowed) {
  std::vector<Del> out;
  size_t p = 0;
  int col = 0; // 0 default 1 yellow 2 red
  auto esc = [&] {
    for (;;) {
      const char *c = raw.c_str() + p;
      if (!strncmp(c, YEL, strlen(YEL))) {
        col = 1;
        p += strlen(YEL);
      } else if (!strncmp(c, RED, strlen(RED))) {
        col = 2;
        p += strlen(RED);
      } else if (!strncmp(c, RST, strlen(RST))) {
        col = 0;
        p += strlen(RST);
      } else
        return;
      SIM_CHECK(color, "logger.color_in_plain_sink",
                "a sink without colours gets colour codes");
    }
  };
  auto snippet = [&](size_t at) {
    std::string r = raw.substr(at, 60);
    for (auto &c : r)
      if (c == '\n' || c == 27)
        c = '~';
    return r;
  };
  while (true) {
    esc();
    if (p >= raw.size())
      break;
    size_t at = p;
    Del d{-1, -1, false};
    uint32_t tid = 0;
    if (!strncmp(raw.c_str() + p, "Thread[0x", 9)) {
      p += 9;
      char *e;
      tid = (uint32_t)strtoul(raw.c_str() + p, &e, 16);
      p = e - raw.c_str();
      SIM_CHECK(!strncmp(raw.c_str() + p, "] ", 2), "logger.torn",
                "sink %d: broken thread prefix at %zu: '%s'", s, at,
                snippet(at).c_str());
      p += 2;
      d.tid = true;
      esc();
    }
    MPType sev = MPType::MSG;
    if (!strncmp(raw.c_str() + p, "WARNING: ", 9)) {
      sev = MPType::WRN;
      p += 9;
    } else if (!strncmp(raw.c_str() + p, "ERROR: ", 7)) {
      sev = MPType::ERR;
      p += 7;
    }
    esc();
    int n = 0;
    if (sscanf(raw.c_str() + p, "<%d.%d|%n", &d.thread, &d.k, &n) != 2 || !n ||
        d.thread < 0 || d.thread >= (int)msgs.size() || d.k < 0 ||
        d.k >= (int)msgs[d.thread].size())
      fail("logger.torn", "sink %d: no whole message at %zu: '%s'", s, at,
           snippet(at).c_str());
    const Msg &m = msgs[d.thread][d.k];
    if (raw.compare(p, m.text.size(), m.text)) {
      size_t q = 0;
      while (q < m.text.size() && p + q < raw.size() && raw[p + q] == m.text[q])
        q++;
      fail("logger.torn",
           "sink %d: message <%d.%d| differs from what was logged at byte %zu "
           "of %zu: '%s'",
           s, d.thread, d.k, q, m.text.size(), snippet(p + q).c_str());
    }
    p += m.text.size();
    SIM_CHECK((sev == m.sev) ||
                  (sev == MPType::MSG && m.sev == MPType::INF),
              "logger.severity",
              "sink %d: message <%d.%d| of severity %d is shown with prefix "
              "'%s'",
              s, d.thread, d.k, (int)m.sev, sev_prefix(sev));
    if (color) {
      int want = m.sev == MPType::WRN ? 1 : m.sev == MPType::ERR ? 2 : 0;
      SIM_CHECK(col == want, "logger.color",
                "sink %d: message <%d.%d| of severity %d is shown in colour %d",
                s, d.thread, d.k, (int)m.sev, col);
    }
    SIM_CHECK(!d.tid || tidAllowed, "logger.thread_prefix",
              "sink %d: unrequested thread prefix", s);
    SIM_CHECK(d.tid || !tidRequired, "logger.thread_prefix",
              "sink %d: missing thread prefix", s);
    if (d.tid)
      SIM_CHECK(tid == thread_handle_low(d.thread + 1), "logger.thread_prefix",
                "sink %d: message of thread %d carries the id of another "
                "thread",
                s, d.thread);
    out.push_back(d);
  }
  SIM_CHECK(col == 0, "logger.color", "sink %d: colour is left switched on", s);
  return out;
}

void check_per_thread_order(int s, const std::vector<Del> &dels,
                            const std::vector<std::vector<Msg>> &msgs) {
  std::vector<int> last(msgs.size(), -1);
  std::vector<std::vector<int>> seen(msgs.size());
  for (size_t t = 0; t < msgs.size(); t++)
    seen[t].resize(msgs[t].size());
  for (auto &d : dels) {
    SIM_CHECK(!seen[d.thread][d.k]++, "logger.duplicate",
              "sink %d: message <%d.%d| is delivered twice", s, d.thread, d.k);
    SIM_CHECK(d.k > last[d.thread], "logger.order",
              "sink %d: message <%d.%d| comes after <%d.%d|", s, d.thread, d.k,
              d.thread, last[d.thread]);
    last[d.thread] = d.k;
  }
}

ThreadCfg draw_cfg() {
  ThreadCfg c;
  c.policy = work(3);
  static const uint32_t iv[] = {200, 60, 20, 6};
  c.meanInterval = iv[work(4)];
  if (chance(WORK, 1, 6))
    c.spuriousNum = 1 + work(8);
  if (chance(WORK, 1, 8))
    c.starveThread = 1 + work(4);
  return c;
}

// C04: whole messages, exactly once, in order, under concurrency
void c04() {
  ThreadCfg c = draw_cfg();
  int nth = 1 + work(4), nsink = 1 + work(4);
  bool tid = chance(WORK, 1, 3);
  bool colors[NSINK];
  std::vector<std::vector<Msg>> msgs(nth);
  size_t total = 0;
  for (int t = 0; t < nth; t++) {
    int n = 1 + work(5);
    for (int k = 0; k < n; k++)
      msgs[t].push_back(make_msg(t, k, chance(WORK, 1, 12)));
    total += n;
  }
  for (int s = 0; s < nsink; s++)
    colors[s] = work(2);
  g_sinkYields = work(3);
  ev("threads=%d sinks=%d tid=%d policy=%d", nth, nsink, tid, c.policy);
  if (nth < 2)
    trivial();
  Sink sinks[NSINK];
  g_sinks = sinks;
  threads_begin(c);
  for (int s = 0; s < nsink; s++)
    printer.AddPrinterFunction(SINKS[s], colors[s]);
  if (tid)
    printer.PrintThreadID(true);
  std::vector<std::thread> th;
  for (int t = 0; t < nth; t++)
    th.emplace_back([&, t] {
      for (auto &m : msgs[t])
        log_msg(m);
    });
  for (auto &t : th)
    t.join();
  threads_end();
  std::vector<Del> first;
  for (int s = 0; s < nsink; s++) {
    auto d = parse(s, sinks[s].text, colors[s], msgs, tid, tid);
    check_per_thread_order(s, d, msgs);
    SIM_CHECK(d.size() == total, "logger.lost",
              "sink %d got %zu of %zu messages", s, d.size(), total);
    if (s == 0)
      first = d;
    else
      for (size_t i = 0; i < d.size(); i++)
        SIM_CHECK(d[i].thread == first[i].thread && d[i].k == first[i].k,
                  "logger.sinks_disagree",
                  "sinks 0 and %d saw the messages in different orders", s);
  }
  for (int s = nsink; s < NSINK; s++)
    SIM_CHECK(!sinks[s].calls, "logger.unregistered_sink",
              "an unregistered sink is called");
  int inter = 0;
  for (size_t i = 1; i < first.size(); i++)
    inter += first[i].thread != first[i - 1].thread;
  if (inter > 1)
    count("probe.interleaved_messages");
}

// Numbers with groups of three digits and a decimal comma
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\3"; }
};

std::string localized(const Piece &p) {
  if (p.kind == 3)
    return std::to_string(p.i) + ",5";
  if (p.kind != 1 && p.kind != 4)
    return p.s;
  std::string r = p.s;
  for (int at = (int)r.size() - 3; at > (r[0] == '-'); at -= 3)
    r.insert(at, 1, '\'');
  return r;
}

// C05: each message renders only what was put into it, whatever happened
// before it (other messages, other threads, failures)
void c05() {
  ThreadCfg c = draw_cfg();
  c.policy = work(2);
  c.starveThread = 0;
  const int nsink = 1 + work(3);
  int mode = work(4); // 0 none 1 failed insertions 2 sink throws 3 alloc fails
  bool colors[NSINK];
  for (int s = 0; s < nsink; s++)
    colors[s] = work(2);
  const bool tid = chance(WORK, 1, 4);
  // Two writers take turns step by step: their half-built messages coexist.
  const int nth = 1 + work(2);
  std::vector<std::vector<Msg>> msgs(nth);
  for (int t = 0; t < nth; t++) {
    int n = 1 + work(7);
    for (int k = 0; k < n; k++) {
      msgs[t].push_back(make_msg(t, k, true));
      if (chance(WORK, 1, 6)) {
        // empty message
        Msg &m = msgs[t].back();
        m.pieces.clear();
        m.text = m.newline ? "\n" : "";
        m.sevAt = m.sev0At = 0;
      }
    }
  }
  // From some message on, a writer wants its numbers in another locale, and
  // maybe later in the usual one again
  const std::locale punct(std::locale::classic(), new Punct),
      classic = std::locale::classic();
  std::vector<std::pair<int, int>> localeAt(nth, {-1, -1});
  for (int t = 0; t < nth; t++)
    if (chance(WORK, 1, 3)) {
      const int n = msgs[t].size(), a = work(n);
      const int b = chance(WORK, 1, 3) ? a + 1 + (int)work(n) : n;
      localeAt[t] = {a, b};
      for (int k = a; k < b && k < n; k++) {
        Msg &m = msgs[t][k];
        m.text.clear();
        for (auto &p : m.pieces)
          m.text += p.s = localized(p);
        if (m.newline)
          m.text += "\n";
      }
    }
  ev("mode=%d sinks=%d writers=%d tid=%d", mode, nsink, nth, tid);
  Sink sinks[NSINK];
  g_sinks = sinks;
  g_sinkYields = 0;

  struct Turn {
    int who = 0;
    bool busy = false;
  } turn;
  // expected content per sink, built in flush order
  std::string expect[NSINK];
  int flushes = 0;
  struct Plan {
    int failPiece = -1; // failed insertion before that piece
    int throwSink = -1;
    int allocAt = 0;
  };
  std::vector<std::vector<Plan>> plans(nth);
  for (int t = 0; t < nth; t++)
    for (auto &m : msgs[t]) {
      Plan p;
      if (mode == 1 && chance(FAULT, 1, 4))
        p.failPiece = draw(FAULT, m.pieces.size() + 1);
      if (mode == 2 && chance(FAULT, 1, 4))
        p.throwSink = draw(FAULT, nsink);
      if (mode == 3 && chance(FAULT, 1, 3))
        p.allocAt = 1 + draw(FAULT, 4);
      plans[t].push_back(p);
    }
  if (nth < 2 && mode == 0 && msgs[0].size() < 2)
    trivial();
  threads_begin(c);
  for (int s = 0; s < nsink; s++)
    printer.AddPrinterFunction(SINKS[s], colors[s]);
  if (tid)
    printer.PrintThreadID(true);

  // Colour of the last character shown to a coloured sink, and the one left on
  auto colours = [](const std::string &r, int at) {
    int now = at, shown = at;
    for (size_t i = 0; i < r.size(); i++) {
      if (r[i] != 27) {
        if (r[i] != '\n')
          shown = now;
        continue;
      }
      now = !r.compare(i, strlen(YEL), YEL)   ? 1
            : !r.compare(i, strlen(RED), RED) ? 2
                                              : 0;
      while (i < r.size() && r[i] != 'm')
        i++;
    }
    return std::make_pair(shown, now);
  };
  auto strip = [](const std::string &r) {
    std::string o;
    for (size_t i = 0; i < r.size(); i++) {
      if (r[i] == 27) {
        while (i < r.size() && r[i] != 'm')
          i++;
        continue;
      }
      o.push_back(r[i]);
    }
    return o;
  };

  auto writer = [&](int t) {
    printer << MPType::MSG; // the thread's stream exists from here on
    for (size_t k = 0; k < msgs[t].size(); k++) {
      Msg &m = msgs[t][k];
      Plan &pl = plans[t][k];
      bool damaged = false;
      if ((int)k == localeAt[t].first) {
        ev("t%d changes its locale", self_id());
        count("probe.locale");
        printer.Locale(punct);
      }
      if ((int)k == localeAt[t].second)
        printer.Locale(classic);
      if (pl.allocAt)
        alloc_fail_at(pl.allocAt);
      {
        NoPreempt np;
        ev("t%d logs <%d.%zu| sev=%d len=%zu nl=%d failPiece=%d", self_id(), t,
           k, (int)m.sev, m.text.size(), m.newline, pl.failPiece);
      }
      try {
        for (size_t i = 0; i <= m.pieces.size(); i++) {
          stream_severity(m, i);
          if (pl.failPiece == (int)i) {
            printer << (const char *)nullptr; // marks the stream as failed
            count("fault.failed_insertion");
            damaged = true;
          }
          if (i < m.pieces.size())
            stream_piece(m.pieces[i]);
          if (nth > 1 && !pl.allocAt && chance(WORK, 1, 3))
            sleep_ns(1000); // let the other writer work on its message
        }
      } catch (const std::bad_alloc &) {
        damaged = true;
      }
      // the flush itself is made atomic by the turn taking below
      for (;;) {
        {
          NoPreempt np;
          if (!turn.busy) {
            turn.busy = true;
            break;
          }
        }
        sleep_ns(500);
      }
      size_t before[NSINK];
      {
        NoPreempt np;
        for (int s = 0; s < nsink; s++)
          before[s] = sinks[s].text.size();
        if (pl.throwSink >= 0)
          sinks[pl.throwSink].throwAt = 1 + draw(FAULT, 3);
      }
      bool threw = false;
      try {
        if (!m.newline && m.text.size() % 3 == 1)
          printer.FlushAll();
        else
          printer >> (m.newline ? 1 : 0);
      } catch (const SinkThrow &) {
        threw = true;
      } catch (const std::bad_alloc &) {
        damaged = true;
      }
      if (pl.allocAt) {
        NoPreempt np;
        damaged |= alloc_fail_fired();
        alloc_fail_at(0);
      }
      {
        NoPreempt np;
        for (int s = 0; s < nsink; s++)
          sinks[s].throwAt = 0;
        flushes++;
        if (threw || damaged) {
          // A damaged message never shows anything that was not logged.
          for (int s = 0; s < nsink && !threw; s++) {
            std::string got = strip(sinks[s].text.substr(before[s]));
            size_t p = 0;
            if (tid && !got.compare(0, 9, "Thread[0x")) {
              p = got.find("] ");
              p = p == got.npos ? 0 : p + 2;
            }
            // a failure may come between two severities
            for (int sv : {(int)m.sev, m.sev0}) {
              const char *sp = sv < 0 ? "" : sev_prefix((MPType)sv);
              if (*sp && !got.compare(p, strlen(sp), sp)) {
                p += strlen(sp);
                break;
              }
            }
            std::string rest = got.substr(p);
            // must be a subsequence of the logged pieces
            std::string full = m.text;
            size_t fi = 0;
            for (char ch : rest) {
              while (fi < full.size() && full[fi] != ch)
                fi++;
              SIM_CHECK(fi < full.size() ||
                            (ch == '\n' && full.size() && full.back() == '\n'),
                        "logger.garbage",
                        "sink %d: a damaged message shows text that was never "
                        "logged (byte 0x%02x)",
                        s, (unsigned char)ch);
              fi++;
            }
          }
          if (damaged)
            count("probe.damaged_message");
        } else {
          for (int s = 0; s < nsink; s++) {
            std::string got = strip(sinks[s].text.substr(before[s]));
            char pre[64] = "";
            if (tid)
              snprintf(pre, sizeof pre, "Thread[0x%X] ",
                       thread_handle_low(self_id()));
            std::string want = std::string(pre) + sev_prefix(m.sev) + m.text;
            if (got != want) {
              size_t q = 0;
              while (q < got.size() && q < want.size() && got[q] == want[q])
                q++;
              fail("logger.content",
                   "sink %d: message %zu of writer %d (severity %d, %zu bytes) "
                   "is rendered as %zu bytes, first difference at %zu: "
                   "expected '%.40s', got '%.40s'",
                   s, k, t, (int)m.sev, want.size(), got.size(), q,
                   want.c_str() + q, got.c_str() + q);
            }
            const int had = colours(sinks[s].text.substr(0, before[s]), 0).second;
            auto col = colours(sinks[s].text.substr(before[s]), had);
            int wantCol = !colors[s]                ? 0
                          : m.sev == MPType::WRN ? 1
                          : m.sev == MPType::ERR ? 2
                                                 : 0;
            SIM_CHECK(col.first == wantCol, "logger.color",
                      "sink %d: message %zu of writer %d (severity %d) is "
                      "shown in colour %d",
                      s, k, t, (int)m.sev, col.first);
            SIM_CHECK(col.second == 0, "logger.color",
                      "sink %d: colour is left switched on", s);
          }
        }
      }
      {
        NoPreempt np;
        turn.busy = false;
      }
    }
  };
  if (nth == 1) {
    writer(0);
  } else {
    std::thread a([&] { writer(0); });
    std::thread b([&] { writer(1); });
    a.join();
    b.join();
    count("probe.two_writers");
  }
  threads_end();
}

// C06: sinks are added and thread ids toggled while others log
void c06() {
  ThreadCfg c = draw_cfg();
  const int nth = 1 + work(3);
  const int nreg = 1 + work(2);
  std::vector<std::vector<Msg>> msgs(nth);
  for (int t = 0; t < nth; t++) {
    int n = 1 + work(5);
    for (int k = 0; k < n; k++)
      msgs[t].push_back(make_msg(t, k, false));
  }
  struct Reg {
    uint64_t from = 0, to = UINT64_MAX; // registration window
  } reg[NSINK];
  bool colors[NSINK];
  for (int s = 0; s < NSINK; s++)
    colors[s] = work(2);
  struct Act {
    int kind, sink;
    bool yn;
    bool flip; // asks for the opposite of the sink's usual colour setting
  };
  bool everFlipped[NSINK] = {};
  std::vector<std::vector<Act>> acts(nreg);
  for (auto &a : acts) {
    int n = 1 + work(6);
    for (int i = 0; i < n; i++)
      a.push_back({(int)work(4), (int)work(NSINK), (bool)work(2),
                   chance(WORK, 1, 4)});
  }
  int pre = work(3); // sinks already registered
  g_sinkYields = work(2);
  ev("loggers=%d registrars=%d preregistered=%d policy=%d", nth, nreg, pre,
     c.policy);
  Sink sinks[NSINK];
  g_sinks = sinks;
  bool anyTid = false;
  for (auto &a : acts)
    for (auto &x : a)
      anyTid |= x.kind == 3 && x.yn;
  threads_begin(c);
  bool known[NSINK] = {};
  for (int s = 0; s < pre; s++) {
    printer.AddPrinterFunction(SINKS[s], colors[s]);
    reg[s] = {0, 0};
    known[s] = true;
  }
  std::vector<std::thread> th;
  for (int t = 0; t < nth; t++)
    th.emplace_back([&, t] {
      for (auto &m : msgs[t])
        log_msg(m);
    });
  for (int r = 0; r < nreg; r++)
    th.emplace_back([&, r] {
      for (auto &a : acts[r]) {
        if (a.kind == 3) {
          printer.PrintThreadID(a.yn);
          continue;
        }
        {
          NoPreempt np;
          ev("t%d adds sink %d", self_id(), a.sink);
          if (!known[a.sink]) {
            known[a.sink] = true;
            reg[a.sink].from = seq();
          }
        }
        printer.AddPrinterFunction(SINKS[a.sink], colors[a.sink] != a.flip);
        NoPreempt np;
        everFlipped[a.sink] |= a.flip;
        if (reg[a.sink].to == UINT64_MAX)
          reg[a.sink].to = seq();
      }
    });
  for (auto &t : th)
    t.join();
  // afterwards everything registered gets a message exactly once
  Msg last;
  last.thread = nth;
  last.k = 0;
  last.text = "<" + std::to_string(nth) + ".0|end\n";
  last.newline = true;
  printer.PrintThreadID(false);
  last.begun = seq();
  printer << last.text.substr(0, last.text.size() - 1) >> 1;
  last.done = seq();
  threads_end();
  msgs.push_back({last});
  // colour switching touches every coloured sink while it is being added, so
  // colours are only judged for the other clauses
  for (int s = 0; s < NSINK; s++) {
    if (!known[s]) {
      SIM_CHECK(!sinks[s].calls, "logger.unregistered_sink",
                "an unregistered sink is called");
      continue;
    }
    std::string stripped;
    for (size_t i = 0; i < sinks[s].text.size(); i++) {
      if (sinks[s].text[i] == 27) {
        SIM_CHECK(colors[s] || everFlipped[s], "logger.color_in_plain_sink",
                  "a sink without colours gets colour codes");
        while (i < sinks[s].text.size() && sinks[s].text[i] != 'm')
          i++;
        continue;
      }
      stripped.push_back(sinks[s].text[i]);
    }
    auto d = parse(s, stripped, false, msgs, false, anyTid);
    check_per_thread_order(s, d, msgs);
    std::vector<std::vector<int>> got(msgs.size());
    for (size_t t = 0; t < msgs.size(); t++)
      got[t].resize(msgs[t].size());
    for (auto &x : d)
      got[x.thread][x.k]++;
    for (size_t t = 0; t < msgs.size(); t++)
      for (size_t k = 0; k < msgs[t].size(); k++) {
        const Msg &m = msgs[t][k];
        if (m.begun >= reg[s].to)
          SIM_CHECK(got[t][k] == 1, "logger.lost",
                    "sink %d was registered before message <%zu.%zu| was "
                    "begun, but does not get it",
                    s, t, k);
        if (m.done <= reg[s].from)
          SIM_CHECK(got[t][k] == 0, "logger.early",
                    "sink %d gets message <%zu.%zu| from before it was "
                    "registered",
                    s, t, k);
        if (m.begun < reg[s].to && m.done > reg[s].from)
          count("probe.registration_during_message");
      }
  }
}

} // namespace

SIM_PROP("C04", c04);
SIM_PROP("C05", c05);
SIM_PROP("C06", c06);
