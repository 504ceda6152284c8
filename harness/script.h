// Random histories of debug statements, executed by the real library in step with a reference model.
// Shared by h_script.cpp (one thread at a time, in step) and h_threads.cpp (concurrent, compared afterwards).
#pragma once
#include "sys.h"
#include "debug.h"
#include "model.h"
#include <condition_variable>
#include <iostream>
#include <sstream>
#include <thread>
#include <cerrno>
#include <climits>
#include <sched.h>
#include <unistd.h>

using namespace vk;
using model::Model;

struct CapBuf;
// One period during which the mutex of a stream was held.
struct Section { uint64_t seq; long tid; CapBuf* buf; std::string text; long flushes; bool several; };

inline std::atomic<uint64_t> section_seq{1};
inline thread_local long section_tid = 0;
inline thread_local uint64_t delay_state = 0;
inline std::atomic<int> delay_percent{0};
inline void maybe_delay()
{
  int p = delay_percent.load(std::memory_order_relaxed);
  if (!p) return;
  if (!delay_state) delay_state = (uint64_t)section_tid * 0x9E3779B97F4A7C15ull + 99;
  delay_state = delay_state * 6364136223846793005ull + 1442695040888963407ull;
  unsigned r = delay_state >> 33;
  if ((int)(r % 100) >= p) return;
  r /= 100;
  if (r % 3) sched_yield();
  else usleep(r / 3 % 150);
}

struct MonMutex
{
  std::mutex m;
  std::atomic<std::thread::id> owner{};
  bool const record;
  explicit MonMutex(bool r = false) : record(r) { }
  std::atomic<bool> closed{false};
  std::vector<Section> sections;
  long locks = 0;
  void got()
  {
    owner.store(std::this_thread::get_id(), std::memory_order_relaxed);
    ++locks;
    if (closed.load(std::memory_order_relaxed)) report.fail("stale-mutex", "the mutex of a stream that was replaced was locked after set_ostream returned");
    if (record) sections.push_back({section_seq.fetch_add(1, std::memory_order_relaxed), section_tid, nullptr, "", 0, false});
    maybe_delay();
  }
  void lock() { maybe_delay(); m.lock(); got(); }
  bool try_lock() { if (!m.try_lock()) return false; got(); return true; }
  void unlock()
  {
    if (!held()) report.fail("unlock-by-other", "the stream mutex was unlocked by a thread that does not hold it");
    owner.store(std::thread::id(), std::memory_order_relaxed);
    m.unlock();
    maybe_delay();
  }
  bool held() const { return owner.load(std::memory_order_relaxed) == std::this_thread::get_id(); }
};

struct CapBuf : std::streambuf
{
  std::string text;
  long flushes = 0;
  unsigned ops = 0;
  MonMutex* mutex = nullptr;
  bool unlocked_write = false;
  std::atomic<bool> closed{false};
  // Returns where the written text must be recorded.
  Section* check()
  {
    errno = 1 + (++ops & 63);           // As a real device may.
    if (closed.load(std::memory_order_relaxed)) report.fail("stale-stream", "a stream was written after set_ostream, that replaced it, returned");
    if (!mutex) return nullptr;
    if (!mutex->held())
    {
      unlocked_write = true;
      if (mutex->record) report.fail("unlocked-write", "a stream was written by a thread that does not hold its mutex");
      return nullptr;
    }
    if (!mutex->record) return nullptr;
    maybe_delay();
    Section& s = mutex->sections.back();
    if (s.buf && s.buf != this) s.several = true;
    s.buf = this;
    return &s;
  }
  // Called for everything that is written; p is null for a flush.
  static inline void (*mirror)(CapBuf*, char const* p, size_t n) = nullptr;
  int_type overflow(int_type ci) override
  {
    char c = (char)ci;
    Section* s = check();
    (s ? s->text : text) += c;
    if (mirror) mirror(this, &c, 1);
    return traits_type::not_eof(ci);
  }
  std::streamsize xsputn(char const* p, std::streamsize n) override
  {
    Section* s = check();
    (s ? s->text : text).append(p, n);
    if (mirror) mirror(this, p, n);
    return n;
  }
  int sync() override
  {
    Section* s = check();
    ++(s ? s->flushes : flushes);
    if (mirror) mirror(this, nullptr, 0);
    return 0;
  }
};

struct RealStream
{
  CapBuf buf;
  std::ostream os{&buf};
  MonMutex mutex;
  model::Stream expected;
};

struct Hang : std::streambuf      // std::cin: endless lines.
{
  char c = '\n';
  long reads = 0;
  int_type underflow() override { ++reads; setg(&c, &c, &c + 1); return '\n'; }
};

// The modes of concurrent runs are l = lines, p = private state, e = thread creation and exit, o = streams are replaced.
enum Mode { F = 'f', N = 'n', S = 's', C = 'c', T = 't', L = 'l', P = 'p', E = 'e', O = 'o' };

struct Runner
{
  Mode mode;
  Rng rng;
  uint64_t seed;
  int budget;
  Model m;
  RealStream streams[3];
  CapBuf cerr_buf;
  std::vector<libcwd::DebugObject*> objs;
  std::vector<libcwd::Channel*>& chans;
  std::vector<std::string> log;
  bool failed = false, with_mutex;
  bool concurrent = false;      // Other threads are running: what is written is compared afterwards.
  // Threads.
  std::mutex bm;
  std::condition_variable bcv;
  long turn = 1;
  bool stopping = false;
  struct TCtx
  {
    long id;
    model::Thread mt;
    std::thread th;
    bool alive = true;
    int depth = 0;
    struct Scope { int open[2] = {0, 0}; };
    std::vector<Scope> scopes{1};
    long token = 0;
    std::map<int, int> pinned;
    libcwd::location_format_t format = 0;
  };
  std::map<long, std::unique_ptr<TCtx>> threads;
  std::vector<long> exited;
  long next_id = 2;
  std::map<std::string, long> seen;
  std::function<void(TCtx&)> on_op;

  Runner(Mode md, uint64_t sd, int ops, std::vector<libcwd::Channel*>& ch, std::vector<std::string> const& labels, unsigned width)
    : mode(md), rng(sd), seed(sd), budget(ops), chans(ch)
  {
    m.labels = labels;
    m.label_width = width;
    m.objects.resize(2);
    for (int i = 0; i < 2; ++i) { m.objects[i].index = i; }
  }

  void note(std::string const& s) { log.push_back(s); }

  void check(TCtx& t)
  {
    if (failed) return;
    for (int i = 0; i < 4 && !concurrent; ++i)
    {
      CapBuf& b = i < 3 ? streams[i].buf : cerr_buf;
      model::Stream& e = i < 3 ? streams[i].expected : m.cerr_stream;
      std::string what;
      if (b.text != e.text)
        what = "text";
      else if (i < 3 && b.flushes != e.flushes)
        what = "flush";
      else if (b.unlocked_write)
        what = "unlocked";
      if (i < 3 && streams[i].mutex.owner.load() != std::thread::id())
        what = "mutex-left-locked";
      if (!what.empty())
      {
        size_t p = 0;
        while (p < b.text.size() && p < e.text.size() && b.text[p] == e.text[p]) ++p;
        size_t from = p > 150 ? p - 150 : 0;
        std::string d = "run " + std::to_string(seed) + " stream " + std::to_string(i) + " flushes " + std::to_string(b.flushes) + " expected " +
                        std::to_string(e.flushes) + "\\nwritten:  ..." + esc(b.text.substr(from)) + "\\nexpected: ..." + esc(e.text.substr(from)) + "\\nhistory:";
        for (size_t k = log.size() > 40 ? log.size() - 40 : 0; k < log.size(); ++k) d += "\\n  " + log[k];
        report.fail("output:" + what, d);
        failed = true;
        return;
      }
    }
    if (concurrent)
    {
      libcwd::location_format_t next = rng.chance(15) ? rng.below(8) : t.format;
      libcwd::location_format_t was = libcwd::location_format(next);
      if (was != t.format)
      {
        report.fail("state:location-format", "run " + std::to_string(seed) + " thread " + std::to_string(t.id) + " has format " + std::to_string(was) + ", not the " +
                    std::to_string(t.format) + " that it set");
        failed = true;
        return;
      }
      if (next != was) ++seen["formats"];
      t.format = next;
    }
    model::ThreadObj* to[2] = {&t.mt.obj[0], &t.mt.obj[1]};
    for (int i = 0; i < 2; ++i)
    {
      std::string what;
      libcwd::DebugObject& o = *objs[i];
      auto str = [](libcwd::DebugString const& s) { return std::string(s.c_str(), s.size() + 1); };      // Including the terminating zero.
      if (str(o.margin()) != to[i]->margin + '\0') what = "margin";
      if (str(o.marker()) != to[i]->marker + '\0') what = "marker";
      if (str(o.color_on()) != to[i]->color_on + '\0') what = "color_on";
      if (str(o.color_off()) != to[i]->color_off + '\0') what = "color_off";
      if (o.get_indent() != to[i]->indent) what = "indent";
      {
        LIBCWD_TSD_DECLARATION;
        if (o.is_on(LIBCWD_TSD) != (to[i]->off == -1)) what = "object-on";
      }
      if (!what.empty())
      {
        std::string d = "run " + std::to_string(seed) + " thread " + std::to_string(t.id) + " object " + std::to_string(i) + " margin '" + esc(str(o.margin())) +
          "' expected '" + esc(to[i]->margin) + "' marker '" + esc(str(o.marker())) + "' expected '" + esc(to[i]->marker) + "' indent " +
          std::to_string(o.get_indent()) + " expected " + std::to_string(to[i]->indent) + "\\nhistory:";
        for (size_t k = log.size() > 40 ? log.size() - 40 : 0; k < log.size(); ++k) d += "\\n  " + log[k];
        report.fail("state:" + what, d);
        failed = true;
        return;
      }
    }
    for (size_t c = 0; c < chans.size(); ++c)
      if (chans[c]->is_on() != (t.mt.channel_off[c] < 0))
      {
        report.fail("state:channel-on", "run " + std::to_string(seed) + " thread " + std::to_string(t.id) + " channel " + m.labels[c] + " is " +
                    (chans[c]->is_on() ? "on" : "off"));
        failed = true;
        return;
      }
  }

  // --- texts
  std::string bytes(int maxlen)
  {
    std::string s;
    int n = rng.below(maxlen + 1);
    int kind = rng.below(4);
    for (int i = 0; i < n; ++i)
      s += kind == 0 ? (char)rng.below(256) : (char)(' ' + rng.below(95));
    return s;
  }
  std::string text(TCtx& t)
  {
    switch (rng.below(12))
    {
      case 0: return "";
      case 1: return bytes(40);
      case 2: { std::string s = "L" + std::to_string(++t.token) + ":"; s.append(rng.chance(50) ? 480 + rng.below(60) : mode == F && rng.chance(4) ? 65400 + rng.below(90000) : rng.below(6000), 'x'); return s + ";"; }
      default: return "t" + std::to_string(t.id) + "." + std::to_string(++t.token) + ";";
    }
  }

  unsigned flags(bool part)
  {
    unsigned f = 0;
    int p = mode == F ? 50 : 12;
    if (rng.chance(p))
    {
      unsigned all[] = {model::NoPrefix, model::NoLabel, model::BlankMargin, model::BlankLabel, model::BlankMarker};
      if (!part)
        for (unsigned x : all) if (rng.chance(30)) f |= x;
    }
    if (rng.chance(mode == F ? 30 : 8)) f |= model::Error;
    if (rng.chance(mode == T ? 15 : 8)) f |= model::NoNewline;
    if (rng.chance(mode == F ? 10 : 25)) f |= model::Flush;
    if (concurrent)
      return mode == O ? f & ~(model::NoNewline | model::Flush) : f;    // Incomplete lines do not move to another stream.
    if (rng.chance(3)) f |= model::Wait;
    if (!part && mode != T && rng.chance(6)) f |= model::Cerr;
    return f;
  }
  static libcwd::control_flag_t cf(unsigned f)
  {
    using namespace libcwd;
    control_flag_t r = 0;
    if (f & model::NoNewline) r |= nonewline_cf;
    if (f & model::NoPrefix) r |= noprefix_cf;
    if (f & model::NoLabel) r |= nolabel_cf;
    if (f & model::BlankMargin) r |= blank_margin_cf;
    if (f & model::BlankLabel) r |= blank_label_cf;
    if (f & model::BlankMarker) r |= blank_marker_cf;
    if (f & model::Cerr) r |= cerr_cf;
    if (f & model::Flush) r |= flush_cf;
    if (f & model::Wait) r |= wait_cf;
    if (f & model::Error) r |= error_cf;
    return r;
  }
  // Also values that the C library does not know.
  int errnum()
  {
    if (rng.chance(12))
    {
      // Unknown numbers of every length, also negative.
      int e = (int)((unsigned)rng.next() >> rng.below(24));
      if (rng.chance(8)) e = rng.chance(2) ? INT_MIN : INT_MAX;
      if (!strerrorname_np(e)) return rng.chance(2) ? e : -((e & INT_MAX) | 1024);
    }
    for (;;) { int e = 1 + rng.below(133); if (strerrorname_np(e)) return e; }
  }

  // --- statements
  struct Stmt
  {
    Runner* r; TCtx* t; int o; std::vector<int> chans; unsigned f; int form; int err;
    bool expect_on; bool done = false; bool entering = false;
  };

  struct Arg { Stmt* s; };
  friend std::ostream& operator<<(std::ostream& os, Arg a)
  {
    Stmt& s = *a.s;
    Runner& r = *s.r;
    if (s.done) r.bad("evaluated-twice", s);
    s.done = true;
    if (!s.expect_on) { r.bad("evaluated-while-off", s); return os; }
    r.args(os, *s.t, s.o, s.entering);
    return os;
  }
  void bad(char const* key, Stmt& s)
  {
    if (failed) return;
    failed = true;
    std::string d = "run " + std::to_string(seed) + "\\nhistory:";
    for (size_t k = log.size() > 40 ? log.size() - 40 : 0; k < log.size(); ++k) d += "\\n  " + log[k];
    report.fail(std::string("evaluation:") + key, d);
  }

  void args(std::ostream& os, TCtx& t, int o, bool)
  {
    int n = rng.below(4);
    for (int i = 0; i < n && !failed; ++i)
    {
      switch (rng.below(6))
      {
        case 0:
          if (budget > 0 && t.depth < 6) { nested(t); break; }
          [[fallthrough]];
        default:
        {
          std::string s = text(t);
          m.text(t.mt, m.objects[o], s);
          os.write(s.data(), s.size());
          break;
        }
        case 1: { bool b = rng.chance(50); m.text(t.mt, m.objects[o], b ? "true" : "false"); os << b; break; }
        case 2:
        {
          int v = rng.below(100000);
          model::Line& l = *t.mt.obj[o].lines.back();
          char buf[32];
          if (rng.chance(20)) { l.hex = true; os << std::hex; }
          else if (rng.chance(30)) { l.hex = false; os << std::dec; }
          std::snprintf(buf, sizeof buf, l.hex ? "%x" : "%d", v);
          m.text(t.mt, m.objects[o], buf);
          os << v;
          break;
        }
      }
    }
  }

  void nested(TCtx& t)
  {
    t.scopes.emplace_back();
    ++t.depth;
    int n = 1 + rng.below(3);
    for (int i = 0; i < n && !failed; ++i) op(t);
    close_scope(t);
    --t.depth;
    t.scopes.pop_back();
    ++seen["nested"];
  }

  void close_scope(TCtx& t)
  {
    for (int o = 0; o < 2; ++o)
      while (!failed && t.scopes.back().open[o] > 0)
        resume(t, o, true);
  }

  std::string chan_names(Stmt const& s)
  {
    std::string r;
    for (int c : s.chans) r += (c == -1 ? "always" : c == -2 ? "no" : m.labels[c]) + "|";
    return r;
  }

  void begin(TCtx& t, int o, bool continued)
  {
    Stmt s{this, &t, o, {}, flags(false), 0, errnum(), false};
    if (continued) s.f &= ~model::Wait;
    int form = rng.below(8);
    int c1 = rng.below(chans.size()), c2 = rng.below(chans.size());
    if (mode != C)        // Prefer statements that are on.
      for (int k = 0; k < 3 && t.mt.channel_off[c1] >= 0; ++k) c1 = rng.below(chans.size());
    bool cond = rng.chance(70);
    switch (form)
    {
      default: s.chans = {c1}; break;
      case 1: case 2: s.chans = {c1, c2}; break;
      case 3: s.chans = {-1}; break;
      case 4: s.chans = {cond ? c1 : -2}; break;
      case 5: s.chans = {cond ? c1 : -2, c2}; break;
    }
    note("t" + std::to_string(t.id) + " d" + std::to_string(t.depth) + " o" + std::to_string(o) + (continued ? " continued_cf " : " ") + chan_names(s) +
         " flags " + std::to_string(s.f));
    s.expect_on = m.begin(t.mt, m.objects[o], s.chans, s.f, continued, s.err);
    std::string dummy;
    if (continued && t.mt.obj[o].off < 0) ++t.scopes.back().open[o];
    libcwd::DebugObject& ob = *objs[o];
    libcwd::Channel& ch1 = *chans[c1];
    libcwd::Channel& ch2 = *chans[c2];
    libcwd::control_flag_t const cfl = cf(s.f);
    Arg a{&s};
    errno = s.err;
    if (!continued)
    {
      switch (form)
      {
        default: if (cfl) LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|cfl, a); else LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1, a); break;
        case 1: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|ch2|cfl, a); break;
        case 2: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|cfl|ch2, a); break;
        case 3: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::always|cfl, a); break;
        case 4: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1(cond)|cfl, a); break;
        case 5: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1(cond)|cfl|ch2, a); break;
      }
    }
    else
    {
      switch (form)
      {
        default: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|cfl|continued_cf, a); break;
        case 1: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|ch2|continued_cf|cfl, a); break;
        case 2: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1|cfl|ch2|continued_cf, a); break;
        case 3: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::always|cfl|continued_cf, a); break;
        case 4: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1(cond)|continued_cf|cfl, a); break;
        case 5: LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, ch1(cond)|ch2|continued_cf|cfl, a); break;
      }
    }
    finish_stmt(t, s, continued, false);
  }

  void finish_stmt(TCtx& t, Stmt& s, bool part, bool via_continued)
  {
    if (failed) return;
    if (s.expect_on && !s.done) { bad("not-evaluated", s); return; }
    if (s.expect_on)
    {
      ++seen[part ? "parts" : "lines"];
      if (part) m.end_part(t.mt, m.objects[s.o], via_continued);
      else m.end_line(t.mt, m.objects[s.o]);
    }
    else
      ++seen["off_statements"];
    if (entered) { t.mt.obj[0].indent += 2; entered = false; }
    check(t);
  }
  bool entered = false;

  void resume(TCtx& t, int o, bool finish)
  {
    Stmt s{this, &t, o, {}, flags(true), 0, errnum(), false};
    if (!finish) s.f &= ~model::Wait;
    note("t" + std::to_string(t.id) + " d" + std::to_string(t.depth) + " o" + std::to_string(o) + (finish ? " finish" : " continued") + " flags " + std::to_string(s.f));
    bool counted = finish && t.mt.obj[o].off < 0;
    s.expect_on = m.resume(t.mt, m.objects[o], finish, s.f, s.err);
    if (counted) --t.scopes.back().open[o];
    libcwd::DebugObject& ob = *objs[o];
    libcwd::control_flag_t const cfl = cf(s.f);
    Arg a{&s};
    errno = s.err;
    if (finish) LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::finish|cfl, a);
    else LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::continued|cfl, a);
    finish_stmt(t, s, !finish, !finish);
  }

  void entering(TCtx& t)
  {
    int o = 0;
    int c1 = rng.below(chans.size());
    Stmt s{this, &t, o, {c1}, flags(false) & ~(unsigned)model::Wait, 0, errnum(), false};
    note("t" + std::to_string(t.id) + " DoutEntering " + chan_names(s) + " flags " + std::to_string(s.f));
    s.expect_on = m.begin(t.mt, m.objects[o], s.chans, s.f, false, s.err);
    if (s.expect_on) m.text(t.mt, m.objects[o], "Entering ");
    libcwd::control_flag_t const cfl = cf(s.f);
    Arg a{&s};
    libcwd::Channel& ch1 = *chans[c1];
    errno = s.err;
    DoutEntering(ch1|cfl, a);
    entered = true;
    finish_stmt(t, s, false, false);
    block(t);
    t.mt.obj[0].indent = t.mt.obj[0].indent < 2 ? 0 : t.mt.obj[0].indent - 2;
    note("leave");
  }

  void mark(TCtx& t)
  {
    model::ThreadObj& to = t.mt.obj[0];
    unsigned old = to.indent;
    std::string mk = rng.chance(50) ? "|" : "\xe2\x94\x82";
    note("Mark " + mk);
    to.markers.push_back(to.marker);
    to.marker += std::string(old, ' ') + mk + ' ';
    to.indent = 0;
    auto body = [&](libcwd::Mark& mm) {
      check(t);
      // A Mark resets the indentation: continued lines must not reach across its begin or end.
      t.scopes.emplace_back();
      block(t);
      close_scope(t);
      t.scopes.pop_back();
      if (rng.chance(50)) mm.end();
      note("Mark end");
    };
    if (mk.size() == 1) { libcwd::Mark mm; body(mm); }
    else if (rng.chance(50)) { libcwd::Mark mm(u8"\u2502"); body(mm); }
    else { libcwd::Mark mm(mk.c_str()); body(mm); }
    to.marker = to.markers.back();
    to.markers.pop_back();
    to.indent += old;
    check(t);
  }

  // Some operations in a C++ block. Lines that are opened in it may stay open.
  void block(TCtx& t)
  {
    if (t.depth >= 8) return;
    ++t.depth;
    int n = rng.below(4);
    for (int i = 0; i < n && !failed; ++i) op(t);
    --t.depth;
  }

  void strings(TCtx& t, int o)
  {
    libcwd::DebugObject& ob = *objs[o];
    model::ThreadObj& to = t.mt.obj[o];
    int w = rng.below(mode == S ? 4 : 5);
    libcwd::DebugString& ds = w == 0 ? ob.margin() : w == 1 ? ob.marker() : w == 2 ? ob.color_on() : w == 3 ? ob.color_off() : ob.margin();
    std::string& ms = w == 0 ? to.margin : w == 1 ? to.marker : w == 2 ? to.color_on : w == 3 ? to.color_off : to.margin;
    int how = rng.below(10);
    std::string s = bytes(mode == S ? (rng.chance(70) ? 40 : 1000) : 12);
    if (ms.size() > (mode == S ? 5000u : 200u)) how = 0;
    note("string " + std::to_string(w) + " op " + std::to_string(how) + " size " + std::to_string(s.size()));
    ++seen["string_ops"];
    Exact e(s);
    switch (how)
    {
      case 0: case 1: ds.assign(e.p, e.n); ms = s; break;
      case 2: ds.assign(s); ms = s; break;
      case 3: ds.append(e.p, e.n); ms += s; break;
      case 4: ds.append(s); ms += s; break;
      case 5: ds.prepend(e.p, e.n); ms = s + ms; break;
      case 6: ds.prepend(s); ms = s + ms; break;
      case 7: ds.reserve(rng.below(2000)); break;
      case 8: ds.assign(std::string()); ms.clear(); break;
      case 9:
        if (w == 1)
        {
          if (rng.chance(50) && to.markers.size() < 5) { ob.push_marker(); to.markers.push_back(to.marker); }
          else if (!to.markers.empty() && mark_depth_ok(t)) { ob.pop_marker(); to.marker = to.markers.back(); to.markers.pop_back(); }
        }
        else
        {
          if (rng.chance(50) && to.margins.size() < 5) { ob.push_margin(); to.margins.push_back(to.margin); }
          else if (!to.margins.empty()) { ob.pop_margin(); to.margin = to.margins.back(); to.margins.pop_back(); }
        }
        break;
    }
    if (ds.capacity() < ds.size()) report.fail("capacity", "capacity " + std::to_string(ds.capacity()) + " < size " + std::to_string(ds.size()));
    check(t);
  }
  // A Mark pops what it pushed; do not pop below it.
  bool mark_depth_ok(TCtx& t) { return t.depth == 0; }

  void op(TCtx& t)
  {
    if (failed || budget <= 0) return;
    --budget;
    if (on_op) on_op(t);
    int o = rng.chance(75) ? 0 : 1;
    model::ThreadObj& to = t.mt.obj[o];
    // Weights per mode.
    struct W { int plain, cont, part, fin, strings, chan, objoff, entering, mark, indent, flush, force, sw; };
    W w = mode == F ? W{50, 6, 4, 6, 20, 6, 1, 3, 3, 3, 1, 2, 0}
        : mode == N ? W{22, 16, 22, 12, 4, 6, 2, 4, 3, 3, 2, 2, 0}
        : mode == S ? W{12, 3, 3, 3, 70, 3, 0, 0, 2, 4, 0, 0, 0}
        : mode == C ? W{25, 12, 12, 10, 1, 25, 8, 2, 1, 1, 1, 8, 0}
                    : mode == T ? W{22, 14, 20, 10, 4, 5, 1, 2, 1, 1, 1, 1, 28}
                    : mode == L ? W{50, 12, 16, 10, 1, 2, 1, 1, 1, 1, 0, 0, 0}
                    : mode == P ? W{15, 10, 14, 8, 12, 18, 4, 5, 5, 6, 0, 4, 0}
                    : mode == E ? W{30, 8, 8, 8, 8, 8, 2, 3, 3, 3, 0, 1, 0}
                    : W{55, 8, 6, 8, 2, 2, 1, 1, 1, 1, 0, 0, 0};
    int all[] = {w.plain, w.cont, w.part, w.fin, w.strings, w.chan, w.objoff, w.entering, w.mark, w.indent, w.flush, w.force, w.sw};
    int sum = 0; for (int x : all) sum += x;
    int k = rng.below(sum), i = 0;
    while (k >= all[i]) k -= all[i++];
    bool can_resume = to.off < 0 ? t.scopes.back().open[o] > 0 : true;
    switch (i)
    {
      case 0: begin(t, o, false); break;
      case 1: if (t.scopes.back().open[o] < 4 && to.lines.size() < 12) begin(t, o, true); break;
      case 2: if (can_resume) resume(t, o, false); break;
      case 3: if (can_resume) resume(t, o, true); break;
      case 4: strings(t, o); break;
      case 5: channel_op(t); break;
      case 6:
      {
        int n = 1 + rng.below(3);
        note("t" + std::to_string(t.id) + " o" + std::to_string(o) + " off x" + std::to_string(n));
        for (int j = 0; j < n; ++j) { ++to.off; objs[o]->off(); }
        block(t);
        for (int j = 0; j < n; ++j) { --to.off; objs[o]->on(); check(t); }
        note("on again");
        ++seen["off_blocks"];
        break;
      }
      case 7: entering(t); break;
      case 8: mark(t); break;
      case 9:
      {
        unsigned n = rng.below(20);
        note("indent " + std::to_string(n));
        if (o == 0 && rng.chance(50))
        {
          libcwd::Indent ind(n);
          to.indent += n;
          check(t);
          block(t);
          to.indent -= n;
        }
        else
        {
          objs[o]->inc_indent(n);
          to.indent += n;
          check(t);
          block(t);
          objs[o]->dec_indent(n);
          to.indent -= n;
        }
        check(t);
        note("dedent");
        break;
      }
      case 10:
        note("always_flush");
        if (m.objects[o].always_flush == 0 || rng.chance(30)) { objs[o]->always_flush_on(); ++m.objects[o].always_flush; }
        else { objs[o]->always_flush_off(); --m.objects[o].always_flush; }
        break;
      case 11: force(t, o); break;
      case 12: switch_thread(t); break;
    }
    check(t);
  }

  void channel_op(TCtx& t)
  {
    int c = rng.below(chans.size());
    int& off = t.mt.channel_off[c];
    if (t.pinned[c]) return;      // restore() requires balanced on() and off() calls.
    if (off >= 0 && rng.chance(off > 2 ? 90 : 65)) { note("t" + std::to_string(t.id) + " " + m.labels[c] + ".on"); chans[c]->on(); --off; }
    else { note("t" + std::to_string(t.id) + " " + m.labels[c] + ".off"); chans[c]->off(); ++off; }
    ++seen["channel_ops"];
    check(t);
  }

  // force_on ... restore of an object and a channel around a block that leaves them balanced.
  void force(TCtx& t, int o)
  {
    model::ThreadObj& to = t.mt.obj[o];
    bool object = rng.chance(60), channel = !object || rng.chance(60);
    // An object that is off inside an open scope would change which lines can be continued.
    if (object && to.off >= 0 && (!to.lines.empty() || to.off_count > 0)) return;
    int c = rng.below(chans.size());
    libcwd::DebugObject::OnOffState os;
    libcwd::Channel::OnOffState cs;
    int so = to.off, sc = t.mt.channel_off[c];
    note("t" + std::to_string(t.id) + " force_on o" + (object ? std::to_string(o) : "-") + " " + (channel ? m.labels[c] : ""));
    if (object) { objs[o]->force_on(os); to.off = -1; }
    if (channel) { chans[c]->force_on(cs, m.labels[c].c_str()); t.mt.channel_off[c] = -1; }
    check(t);
    t.scopes.emplace_back();
    if (channel) ++t.pinned[c];
    block(t);
    close_scope(t);
    if (channel) --t.pinned[c];
    t.scopes.pop_back();
    if (channel) { chans[c]->restore(cs); t.mt.channel_off[c] = sc; }
    if (object) { objs[o]->restore(os); to.off = so; }
    note("restore");
    ++seen["force_blocks"];
    check(t);
  }

  // --- threads
  void wait_turn(long id)
  {
    std::unique_lock<std::mutex> l(bm);
    bcv.wait(l, [&] { return turn == id; });
    l.unlock();
    if (id == 1)
    {
      for (long x : exited) { threads[x]->th.join(); threads.erase(x); }
      exited.clear();
    }
  }
  void give(long to) { { std::lock_guard<std::mutex> l(bm); turn = to; } bcv.notify_all(); }

  void switch_thread(TCtx& t)
  {
    if (threads.size() < 4 && !stopping && rng.chance(threads.size() < 2 ? 100 : 12)) spawn();
    std::vector<long> ids;
    for (auto& x : threads) if (x.second->alive && x.first != t.id) ids.push_back(x.first);
    if (ids.empty()) return;
    long to = rng.pick(ids);
    ++seen["thread_switches"];
    give(to);
    wait_turn(t.id);
  }

  void spawn()
  {
    long id = next_id++;
    auto c = std::make_unique<TCtx>();
    c->id = id;
    m.init_thread(c->mt, id);
    TCtx* p = c.get();
    threads[id] = std::move(c);
    note("spawn " + std::to_string(id));
    ++seen["threads"];
    p->th = std::thread([this, p] { body(*p); });
  }

  void body(TCtx& t)
  {
    wait_turn(t.id);
    check(t);
    // Everything is off in a new thread.
    for (int i = 0, n = rng.below(3); i < n; ++i) begin(t, rng.below(2), false);
    setup(t);
    while (!failed && !stopping && budget > 0 && !rng.chance(2)) op(t);
    close_scope(t);
    restore(t);
    note("exit " + std::to_string(t.id));
    t.alive = false;
    exited.push_back(t.id);
    give(1);
  }

  void setup(TCtx& t)
  {
    for (int o = 0; o < 2; ++o) { objs[o]->on(); --t.mt.obj[o].off; }
    for (size_t c = 0; c < chans.size(); ++c)
      if (t.mt.channel_off[c] >= 0 && rng.chance(mode == C ? 50 : 80)) { chans[c]->on(); --t.mt.channel_off[c]; }
    check(t);
  }
  // Put the state of this thread back to what it was.
  void restore(TCtx& t)
  {
    for (int o = 0; o < 2; ++o)
    {
      model::ThreadObj& to = t.mt.obj[o];
      while (!to.margins.empty()) { objs[o]->pop_margin(); to.margin = to.margins.back(); to.margins.pop_back(); }
      while (!to.markers.empty()) { objs[o]->pop_marker(); to.marker = to.markers.back(); to.markers.pop_back(); }
      check(t);
      if (t.id == 1)
      {
        objs[o]->margin().assign(std::string()); objs[o]->marker().assign(std::string(": "));
        objs[o]->color_on().assign(std::string()); objs[o]->color_off().assign(std::string());
        while (m.objects[o].always_flush > 0) { objs[o]->always_flush_off(); --m.objects[o].always_flush; }
        to.margin = to.color_on = to.color_off = ""; to.marker = ": ";
        if (to.off < 0) { objs[o]->off(); ++to.off; }
      }
    }
    if (t.id == 1)
      for (size_t c = 0; c < chans.size(); ++c)
      {
        while (t.mt.channel_off[c] > 0) { chans[c]->on(); --t.mt.channel_off[c]; }
        while (t.mt.channel_off[c] < 0) { chans[c]->off(); ++t.mt.channel_off[c]; }
      }
    check(t);
  }

  void run()
  {
    with_mutex = mode == T || rng.chance(50);
    bool shared = rng.chance(50);
    for (int o = 0; o < 2; ++o)
    {
      RealStream& s = streams[shared ? 0 : o];
      if (with_mutex || libcwd::libcw_do.has_mutex())
      {
        objs[o]->set_ostream(&s.os, &s.mutex);
        s.buf.mutex = &s.mutex;
      }
      else
        objs[o]->set_ostream(&s.os);
      m.objects[o].os = &s.expected;
    }
    std::streambuf* old_cerr = std::cerr.rdbuf(&cerr_buf);
    auto main_ctx = std::make_unique<TCtx>();
    TCtx& t = *main_ctx;
    t.id = 1;
    m.init_thread(t.mt, 1);
    threads[1] = std::move(main_ctx);
    setup(t);
    while (!failed && budget > 0) op(t);
    budget = 0;
    if (!failed) close_scope(t);
    stopping = true;
    while (threads.size() > 1 && !failed)
      switch_thread(t);
    if (failed)         // Threads may be anywhere: leave them.
    {
      std::printf("SAMPLE failed run %llu\n", (unsigned long long)seed);
      report.done();
      std::_Exit(0);
    }
    restore(t);
    // An incomplete line of a finished run must not reach into the next one.
    for (int o = 0; o < 2; ++o)
    {
      objs[o]->on();
      --t.mt.obj[o].off;
      Stmt s{this, &t, o, {-1}, 0, 0, 1, false};
      s.expect_on = m.begin(t.mt, m.objects[o], s.chans, 0, false, 1);
      Arg a{&s};
      LibcwDout(LIBCWD_DEBUG_CHANNELS, *objs[o], dc::always, a);
      finish_stmt(t, s, false, false);
      if (failed) { report.done(); std::_Exit(0); }
      objs[o]->off();
      ++t.mt.obj[o].off;
    }
    std::string sum;
    for (int i = 0; i < 3; ++i) sum += streams[i].buf.text;
    sum += cerr_buf.text;
    std::cerr.rdbuf(old_cerr);
    report.eval(sum);
    for (auto& kv : seen) report.stat(kv.first.c_str(), kv.second);
    report.stat("bytes", sum.size());
    auto occ = [&](char const* w) { long n = 0; for (size_t p = 0; (p = sum.find(w, p)) != std::string::npos; ++p) ++n; return n; };
    report.stat("unfinished", occ("<unfinished>"));
    report.stat("continued", occ("<continued>"));
    report.stat("no_newline", occ("<no newline>"));
    if (seed % 97 == 3) report.sample(sum.substr(0, 300));
    objs[0]->set_ostream(&sink, &sink_mutex);
    objs[1]->set_ostream(&sink, &sink_mutex);
  }
  static std::ostream sink;
  static MonMutex sink_mutex;
};
std::ostream Runner::sink(nullptr);
MonMutex Runner::sink_mutex;

