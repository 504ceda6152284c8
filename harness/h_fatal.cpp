// Fatal statements and misuse of the debug macros, at any point of a random history. Every case runs in a child process;
// what was written, and what should have been, is kept in memory that is shared with the parent.
// args: mode seed first_case cases ops
//   mode: f = one fatal statement, x = several threads fatal at once, m = misuse
#include "script.h"
#include <csignal>
#include <new>
#include <regex>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static libcwd::DebugObject second_do;

namespace {

constexpr size_t max_text = 1 << 20;
constexpr int max_records = 65536;

struct Text { std::atomic<size_t> n; long flushes; char s[max_text]; };

struct Record { long tid; int size; long flushes; bool several; char s[80]; };

struct Shared
{
  // Set by the child.
  Text actual[4], expected[4];
  int kind;             // 0: core, 1: fatal, 2: core_dump().
  std::atomic<int> state;       // 1: at the fatal statement, 2: expected texts are complete.
  std::atomic<int> returned;    // The fatal statement returned.
  std::atomic<int> takers;      // Number of calls of abort() and _Exit().
  std::atomic<int> failed;      // The child reported a failure.
  bool prefix_only;             // What is expected is followed by something that matches `pattern'.
  bool silent;                  // No message.
  bool may_survive;
  char pattern[400];
  char where[2000];
  // Mode x.
  std::atomic<int> nrecords;
  Record records[max_records];
  int nfatal;
  int fatal_kind[64];           // By thread id.
};

Shared* sh;

void put(Text& t, char const* p, size_t n)
{
  size_t at = t.n.load(std::memory_order_relaxed);
  if (n > max_text - at) n = max_text - at;
  std::memcpy(t.s + at, p, n);
  t.n.store(at + n, std::memory_order_release);
}

CapBuf* bufs[4];

void mirror(CapBuf* b, char const* p, size_t n)
{
  for (int i = 0; i < 4; ++i)
    if (bufs[i] == b)
    {
      if (p) put(sh->actual[i], p, n);
      else ++sh->actual[i].flushes;
    }
}

int const slow_exit_us = 3000;

} // namespace

// The calls that end the process; see who gets here.
extern "C" __attribute__((__noreturn__)) void abort() noexcept
{
  if (sh) { sh->takers.fetch_add(1); usleep(slow_exit_us); }
  std::signal(SIGABRT, SIG_DFL);
  sigset_t set;
  sigemptyset(&set);
  sigaddset(&set, SIGABRT);
  pthread_sigmask(SIG_UNBLOCK, &set, nullptr);
  raise(SIGABRT);
  for (;;) syscall(SYS_exit_group, 127);
}
extern "C" __attribute__((__noreturn__)) void _Exit(int status) noexcept
{
  if (sh) { sh->takers.fetch_add(1); usleep(slow_exit_us); }
  for (;;) syscall(SYS_exit_group, status);
}

namespace {

[[noreturn]] void leave(int status) { std::fflush(stdout); for (;;) syscall(SYS_exit_group, status); }

void expect_now(Runner& r)
{
  for (int i = 0; i < 4; ++i)
  {
    model::Stream& e = i < 3 ? r.streams[i].expected : r.m.cerr_stream;
    sh->expected[i].n = 0;
    put(sh->expected[i], e.text.data(), e.text.size());
    sh->expected[i].flushes = e.flushes;
  }
  sh->state = 2;
}

void where(Runner& r, std::string const& what)
{
  std::string d = "run " + std::to_string(r.seed) + " " + what + "\\nhistory:";
  for (size_t k = r.log.size() > 25 ? r.log.size() - 25 : 0; k < r.log.size(); ++k) d += "\\n  " + r.log[k];
  std::snprintf(sh->where, sizeof sh->where, "%s", d.c_str());
}

// The last argument of a fatal statement: the model's end of that line.
struct Last { Runner* r; Runner::TCtx* t; int o; int kind; };
std::ostream& operator<<(std::ostream& os, Last l)
{
  if (l.r->failed) { sh->failed = 1; leave(98); }
  l.r->m.end_line(l.t->mt, l.r->m.objects[l.o], true);
  where(*l.r, "fatal");
  sh->kind = l.kind;
  expect_now(*l.r);
  return os;
}
struct Args { Runner* r; Runner::TCtx* t; int o; };
std::ostream& operator<<(std::ostream& os, Args a) { a.r->args(os, *a.t, a.o, false); return os; }

void fatal_statement(Runner& r, Runner::TCtx& t)
{
  int o = r.rng.chance(70) ? 0 : 1;
  int kind = r.rng.below(9) / 4;
  unsigned f = r.flags(false) & ~(unsigned)model::Wait;
  int err = r.errnum();
  sh->kind = kind;
  sh->state = 1;
  r.note("t" + std::to_string(t.id) + " FATAL kind " + std::to_string(kind) + " o" + std::to_string(o) + " flags " + std::to_string(f));
  where(r, "fatal");
  if (kind == 2)
  {
    expect_now(r);
    libcwd::core_dump();
  }
  r.m.begin(t.mt, r.m.objects[o], {}, f, false, err, kind == 0 ? "COREDUMP" : "FATAL");
  Args a{&r, &t, o};
  Last l{&r, &t, o, kind};
  libcwd::DebugObject& ob = *r.objs[o];
  libcwd::control_flag_t const c = Runner::cf(f);
  errno = err;
  if (o == 0 && r.rng.chance(50))
  {
    if (kind == 0) { if (c) DoutFatal(dc::core|c, a << l); else DoutFatal(dc::core, a << l); }
    else { if (c) DoutFatal(dc::fatal|c, a << l); else DoutFatal(dc::fatal, a << l); }
  }
  else if (kind == 0)
    LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, ob, dc::core|c, a << l);
  else
    LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, ob, dc::fatal|c, a << l);
  sh->returned = 1;
  leave(99);
}

// A message of libcwd itself.
void expect_message(Runner& r, Runner::TCtx& t, std::string const& msg)
{
  r.m.begin(t.mt, r.m.objects[0], {}, 0, false, 1, "COREDUMP");
  r.m.text(t.mt, r.m.objects[0], msg);
  r.m.end_line(t.mt, r.m.objects[0], true);
  expect_now(r);
}

void expect_pattern(Runner& r, std::string const& re)
{
  std::snprintf(sh->pattern, sizeof sh->pattern, "%s", re.c_str());
  sh->prefix_only = true;
  expect_now(r);
}

struct Deep { libcwd::DebugObject* ob; int n; };
std::ostream& operator<<(std::ostream& os, Deep d)
{
  if (d.n > 0) LibcwDout(LIBCWD_DEBUG_CHANNELS, *d.ob, dc::always, "n" << d.n << Deep{d.ob, d.n - 1});
  return os;
}

template<class T> T* zeroed(size_t n) { return static_cast<T*>(std::calloc(n, sizeof(T))); }

long misuse_kind[32];

void misuse(Runner& r, Runner::TCtx& t)
{
  int o = r.rng.chance(70) ? 0 : 1;
  libcwd::DebugObject& ob = *r.objs[o];
  model::ThreadObj& to = t.mt.obj[o];
  int k = r.rng.below(13);
  bool open_line = to.off < 0 && r.m.may_resume(t.mt, r.m.objects[o]);
  auto note = [&](char const* s) {
    r.note("t" + std::to_string(t.id) + " MISUSE " + s + " o" + std::to_string(o));
    where(r, std::string("misuse: ") + s);
    sh->kind = 0;
    sh->state = 1;
    sh->nfatal = k;
  };
  switch (k)
  {
    case 0: case 1: case 11: case 12:
    {
      if (to.off >= 0 || open_line) return;
      bool finish = k == 0 || k == 11;
      std::thread helper;
      bool hold = k >= 11;
      if (hold && !r.with_mutex) return;
      note(finish ? "dc::finish" : "dc::continued");
      bool empty = to.saved_off_counts.empty();
      expect_pattern(r, finish && empty ? "Using \"dc::finish\" without corresponding \"continued_cf\" or calling the Dout\\(dc::finish, \\.\\.\\.\\) more often than its corresponding "
                                           "Dout\\(dc::channel\\|continued_cf, \\.\\.\\.\\)\\."
                                        : std::string("Using `dc::") + (to.lines.size() && to.lines.back()->finishing ? "(finish|continued)" : finish ? "finish" : "continued") + "' (in [^\\n]* )?without \\(first using\\) a matching `continued_cf'\\.");
      if (hold)
      {
        std::atomic<bool> held{false};
        MonMutex* mm = nullptr;
        for (RealStream& s : r.streams) if (&s.expected == r.m.objects[o].os) mm = &s.mutex;
        int ms = r.rng.chance(30) ? 260 : 5 + r.rng.below(100);
        helper = std::thread([mm, &held, ms] { mm->lock(); held = true; usleep(ms * 1000); mm->unlock(); });
        while (!held) sched_yield();
        if (ms < 150) sh->kind = 3;     // Nothing is written without the lock.
      }
      if (finish) LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::finish, "extra");
      else LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::continued, "extra");
      break;
    }
    case 2:
      note("pop_margin");
      while (!to.margins.empty()) { ob.pop_margin(); to.margin = to.margins.back(); to.margins.pop_back(); }
      expect_message(r, t, "Calling `DebugObject::pop_margin' more often than `DebugObject::push_margin'.");
      ob.pop_margin();
      break;
    case 3:
      note("pop_marker");
      while (!to.markers.empty()) { ob.pop_marker(); to.marker = to.markers.back(); to.markers.pop_back(); }
      expect_message(r, t, "Calling `DebugObject::pop_marker' more often than `DebugObject::push_marker'.");
      ob.pop_marker();
      break;
    case 4:
    {
      note("long label");
      std::string label(17 + r.rng.below(r.rng.chance(50) ? 3 : 600), 'L');
      expect_message(r, t, "strlen(\"" + label + "\") > 16");
      new (zeroed<libcwd::Channel>(1)) libcwd::Channel(label.c_str());
      break;
    }
    case 5:
    {
      note("too many channels");
      expect_message(r, t, "Too many debug channels; LIBCWD_DC_MAX is " + std::to_string(LIBCWD_DC_MAX));
      libcwd::Channel* c = zeroed<libcwd::Channel>(300);
      for (int i = 0; i < 300; ++i) new (c + i) libcwd::Channel("MANY");
      break;
    }
    case 6:
    {
      if (r.next_id > 2) return;      // Only the first thread, before there are others.
      note("too many debug objects");
      expect_message(r, t, std::string("Too many debug objects; LIBCWD_DO_MAX is ") + std::to_string(LIBCWD_DO_MAX));
      libcwd::DebugObject* d = zeroed<libcwd::DebugObject>(300);
      for (int i = 0; i < 300; ++i) { new (d + i) libcwd::DebugObject; libcwd::DebugObject::OnOffState s; d[i].force_on(s); }
      break;
    }
    case 7:
    {
      int c = r.rng.below(r.chans.size());
      note("on() surplus");
      expect_message(r, t, "Calling Channel::on() more often than Channel::off()");
      for (int i = t.mt.channel_off[c]; i >= -1; --i) r.chans[c]->on();
      break;
    }
    case 8:
    {
      note("unbalanced restore");
      expect_now(r);
      if (r.rng.chance(50))
      {
        libcwd::DebugObject::OnOffState s;
        ob.force_on(s);
        if (r.rng.chance(50)) ob.on(); else { ob.off(); ob.off(); ob.on(); }
        ob.restore(s);
      }
      else
      {
        libcwd::Channel::OnOffState s;
        r.chans[0]->force_on(s, r.m.labels[0].c_str());
        r.chans[0]->off();
        r.chans[0]->restore(s);
      }
      break;
    }
    case 9:
    {
      if (to.off >= 0) return;
      note("deep nesting");
      int n = 20 + r.rng.below(100);
      sh->prefix_only = true;
      sh->silent = true;
      expect_now(r);
      if (n < 50) sh->kind = 4;        // Not even close to the limit: survives.
      else if (n <= 64) sh->may_survive = true;
      LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::always, "n" << Deep{&ob, n});
      if (n <= 64) leave(0);
      break;
    }
    case 10:
    {
      if (to.off >= 0) return;
      note("many continued");
      int n = 20 + r.rng.below(100);
      sh->prefix_only = true;
      sh->silent = true;
      expect_now(r);
      if (n < 45) sh->kind = 4;
      else if (n <= 64) sh->may_survive = true;
      for (int i = 0; i < n; ++i) LibcwDout(LIBCWD_DEBUG_CHANNELS, ob, dc::always|continued_cf, "c");
      if (n <= 64) leave(0);
      break;
    }
  }
  sh->returned = 1;
  where(r, "misuse kind " + std::to_string(k));
  leave(99);
}

// Mode x: concurrent threads. The message of each statement is its own name.
struct XMutex : MonMutex
{
  std::string text;
  long flushes = 0;
  void unlock()
  {
    int i = sh->nrecords.load(std::memory_order_relaxed);
    if (i < max_records)
    {
      Record& rec = sh->records[i];
      rec.tid = section_tid;
      rec.size = text.size();
      rec.flushes = flushes;
      std::snprintf(rec.s, sizeof rec.s, "%s", text.c_str());
      sh->nrecords.store(i + 1, std::memory_order_release);
    }
    text.clear();
    flushes = 0;
    MonMutex::unlock();
  }
};
struct XBuf : std::streambuf
{
  XMutex* m;
  void check() { if (!m->held()) { report.fail("unlocked-write", "the stream was written by a thread that does not hold its mutex"); sh->failed = 1; } maybe_delay(); }
  int_type overflow(int_type c) override { check(); m->text += (char)c; return traits_type::not_eof(c); }
  std::streamsize xsputn(char const* p, std::streamsize n) override { check(); m->text.append(p, n); return n; }
  int sync() override { check(); ++m->flushes; return 0; }
};

void concurrent_child(uint64_t seed)
{
  Rng rng(seed);
  static XMutex mutex;
  static XBuf buf;
  buf.m = &mutex;
  static std::ostream os(&buf);
  libcwd::libcw_do.set_ostream(&os, &mutex);
  int nwriters = rng.below(4), nfatal = 1 + rng.below(5);
  sh->nfatal = nfatal;
  delay_percent = rng.chance(70) ? (int)rng.below(60) : 0;
  static std::atomic<int> ready{0};
  static std::atomic<bool> go{false};
  int same = rng.below(4);      // 0, 1: all of that kind.
  auto fatal_thread = [](long tid, int kind, int delay, bool on, bool nested) {
    section_tid = tid;
    if (on) Debug(libcw_do.on());
    ++ready;
    while (!go) sched_yield();
    if (delay) usleep(delay);
    auto inner = [&]() -> char const* {
      switch (kind)
      {
        case 0: DoutFatal(dc::core, "fatal " << tid); break;
        case 1: DoutFatal(dc::fatal, "fatal " << tid); break;
        case 2: libcwd::core_dump();
      }
      sh->returned = 1;
      leave(99);
      return "";
    };
    if (on && nested && kind != 2) { Dout(dc::always|continued_cf, "open "); Dout(dc::always, "x" << inner()); }
    else inner();
    sh->returned = 1;
  };
  std::vector<std::thread> ths;
  for (int i = 0; i < nfatal; ++i)
  {
    long tid = 2 + i;
    int kind = same < 2 ? same : (int)rng.below(7) / 3;
    sh->fatal_kind[tid] = kind;
    if (i == 0 && rng.chance(50)) continue;     // The main thread takes that role.
    int delay = rng.chance(50) ? 0 : rng.below(300);
    bool on = rng.chance(60), nested = rng.chance(30);
    ths.emplace_back(fatal_thread, tid, kind, delay, on, nested);
  }
  for (int w = 0; w < nwriters; ++w)
  {
    ths.emplace_back([w] {
      section_tid = 20 + w;
      Debug(libcw_do.on());
      Debug(dc::notice.on());
      ++ready;
      for (long n = 0;; ++n) { Dout(dc::notice, "line " << section_tid << ' ' << n); if (!(n & 3)) usleep(50); }
    });
  }
  while (ready < (int)ths.size()) sched_yield();
  bool main_fatal = (int)ths.size() - nwriters < nfatal;
  sh->state = 2;
  section_tid = 2;
  go = true;
  if (main_fatal) fatal_thread(2, sh->fatal_kind[2], 0, false, false);
  for (auto& t : ths) t.join();
  leave(97);
}

std::string status_text(int st)
{
  return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st));
}

void judge_x(uint64_t seed, int st)
{
  std::string at = "case " + std::to_string(seed) + " (" + status_text(st) + ")";
  std::set<int> complete;       // The kinds of complete fatal lines.
  std::map<long, long> next;
  std::set<long> done;
  int n = sh->nrecords;
  std::string order;
  for (int i = 0; i < n; ++i)
  {
    Record& r = sh->records[i];
    order += (char)('A' + r.tid);
    std::string s(r.s);
    if (r.tid >= 20)
    {
      std::string e = "NOTICE  : line " + std::to_string(r.tid) + " " + std::to_string(next[r.tid]++) + "\n";
      if (s != e) report.fail("x:line", at + " section '" + esc(s) + "' expected '" + esc(e) + "'");
      continue;
    }
    int k = r.tid < 64 ? sh->fatal_kind[r.tid] : -1;
    std::string label = k == 0 ? "COREDUMP" : "FATAL   ", tail = ": fatal " + std::to_string(r.tid) + "\n";
    if (done.count(r.tid)) report.fail("x:after-fatal", at + " thread " + std::to_string(r.tid) + " wrote '" + esc(s) + "' after its fatal line");
    if (s == label + tail || s == label + ":         fatal " + std::to_string(r.tid) + "\n")
    {
      complete.insert(k);
      done.insert(r.tid);
      if (!r.flushes) report.fail("x:flush", at + " fatal line without flush");
    }
    else if (s != std::string(8, '>') + ": open <unfinished>\n" && n < max_records)
      report.fail("x:fatal-line", at + " section '" + esc(s) + "' of thread " + std::to_string(r.tid));
  }
  bool has_core_dump = false;
  for (int i = 0; i < sh->nfatal; ++i) has_core_dump |= sh->fatal_kind[2 + i] == 2;
  bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, exited = WIFEXITED(st) && WEXITSTATUS(st) == 180;
  if (n >= max_records) report.stat("overflow", 1);
  else if (sh->returned) report.fail("x:returned", at + " a fatal statement returned");
  else if (!aborted && !exited) report.fail("x:status", at);
  else if (aborted && !complete.count(0) && !has_core_dump) report.fail("x:core-without-message", at);
  else if (exited && !complete.count(1)) report.fail("x:exit-without-message", at);
  if (sh->takers > 1) report.fail("x:two-takers", at + " " + std::to_string(sh->takers) + " threads ended the process");
  report.eval(order + status_text(st));
  report.stat("fatal_lines", done.size());
  report.stat("sections", n);
  report.stat(done.size() > 1 ? "several_fatal" : "one_fatal", 1);
}

void judge(char mode, uint64_t seed, int st)
{
  std::string at = std::string(sh->where) + "\\nended with " + status_text(st);
  if (sh->failed) return;
  if (sh->state == 0)
  {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { report.stat("no_fatal", 1); return; }      // The point was not reached.
    report.fail(std::string(1, mode) + ":died-early", "case " + std::to_string(seed) + " " + at);
    return;
  }
  bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, exited = WIFEXITED(st) && WEXITSTATUS(st) == 180;
  bool survived = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  std::string key(1, mode);
  if (mode == 'm') key += "-" + std::to_string(sh->nfatal);
  if (sh->returned) { report.fail(key + ":returned", at); return; }
  if (sh->state != 2) { report.fail(key + ":not-completed", at); return; }
  bool ok = sh->kind == 4 ? survived : sh->kind == 1 ? exited : aborted || (sh->may_survive && survived);
  if (!ok) { report.fail(key + ":status", at); return; }
  if (sh->takers > 1) report.fail(key + ":two-takers", at);
  std::string all, rest;
  for (int i = 0; i < 4; ++i)
  {
    std::string a(sh->actual[i].s, sh->actual[i].n), e(sh->expected[i].s, sh->expected[i].n);
    all += a;
    if (sh->prefix_only)
    {
      if (a.compare(0, e.size(), e) != 0) { report.fail(key + ":lost", at + " stream " + std::to_string(i)); return; }
      rest += a.substr(e.size());
      continue;
    }
    size_t p = 0;
    while (p < a.size() && p < e.size() && a[p] == e[p]) ++p;
    size_t from = p > 100 ? p - 100 : 0;
    if (a != e)
    {
      report.fail(key + ":text", at + "\\nstream " + std::to_string(i) + " written: ..." + esc(a.substr(from)) + "\\nexpected: ..." + esc(e.substr(from)));
      return;
    }
    if (i < 3 && sh->actual[i].flushes != sh->expected[i].flushes)
      report.fail(key + ":flush", at + " flushes " + std::to_string(sh->actual[i].flushes) + " expected " + std::to_string(sh->expected[i].flushes));
  }
  if (sh->prefix_only && !sh->silent)
  {
    std::string flat;
    std::regex re("COREDUMP[^]*" + std::string(sh->pattern) + "[^]*\n");
    if (!std::regex_search(rest, re)) report.fail(key + ":message", at + "\\nwritten: ..." + esc(rest.substr(rest.rfind("COREDUMP") == std::string::npos ? (rest.size() > 350 ? rest.size() - 350 : 0) : rest.rfind("COREDUMP"))));
  }
  report.eval(std::string(sh->where));
  report.stat(mode == 'm' ? ("misuse_" + std::to_string(sh->nfatal)).c_str() : ("kind_" + std::to_string(sh->kind)).c_str(), 1);
  if (seed % 53 == 1) report.sample(all.size() > 200 ? all.substr(all.size() - 200) : all);
}

} // namespace

int main(int argc, char** argv)
{
  setenv("LIBCWD_RCFILE_NAME", "/dev/null", 0);
  char mode = argv[1][0];
  uint64_t seed = arg_u64(argc, argv, 2, 1), first = arg_u64(argc, argv, 3, 0), cases = arg_u64(argc, argv, 4, 10);
  int ops = arg_u64(argc, argv, 5, 80);
  libcwd::_private_::DebugChannels::instance();
  std::vector<libcwd::Channel*> chans;
  std::vector<std::string> labels;
  using libcwd::Channel;
  chans.push_back(&libcwd::channels::dc::notice); labels.push_back("NOTICE");
  chans.push_back(&libcwd::channels::dc::system); labels.push_back("SYSTEM");
  unsigned width = 8;
  if (mode != 'x')
    for (std::string l : {std::string("A"), std::string("lower"), std::string("X_LONGEST_LABEL!").substr(0, (first & 1) ? 16 : 8), std::string("MIDDLE")})
    {
      alignas(Channel) static unsigned char mem[8][sizeof(Channel)];
      chans.push_back(new (mem[chans.size()]) Channel(l.c_str()));
      labels.push_back(l);
      width = std::max<unsigned>(width, l.size());
    }
  static Hang in;
  std::cin.rdbuf(&in);
  Shared* mem = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (uint64_t i = first; i < first + cases; ++i)
  {
    uint64_t sd = seed * 1000003 + i;
    for (int k = 0; k < 4; ++k) { mem->actual[k].n = mem->expected[k].n = 0; mem->actual[k].flushes = mem->expected[k].flushes = 0; }
    mem->state = mem->returned = mem->takers = mem->failed = mem->nrecords = 0;
    mem->prefix_only = mem->silent = mem->may_survive = false;
    mem->where[0] = 0;
    std::memset(mem->fatal_kind, 0, sizeof mem->fatal_kind);
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
      alarm(40);
      sh = mem;
      if (mode == 'x') concurrent_child(sd);
      Rng rng(sd * 7 + 1);
      Mode md = (Mode)"nnfct"[rng.below(5)];
      Runner r(md, sd, ops, chans, labels, width);
      r.objs = {&libcwd::libcw_do, &second_do};
      int at = rng.below(ops);
      int n = 0;
      r.on_op = [&](Runner::TCtx& t) {
        if (n++ < at) return;
        if (mode == 'f') { if (rng.chance(50)) fatal_statement(r, t); }
        else if (rng.chance(60)) misuse(r, t);
      };
      for (int k = 0; k < 3; ++k) bufs[k] = &r.streams[k].buf;
      bufs[3] = &r.cerr_buf;
      CapBuf::mirror = mirror;
      r.run();
      leave(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    sh = mem;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { report.fail(std::string(1, mode) + ":hang", "case " + std::to_string(sd) + " " + mem->where); break; }
    else if (mode == 'x') judge_x(sd, st);
    else judge(mode, sd, st);
    sh = nullptr;
  }
  return report.done();
}
