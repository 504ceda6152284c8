// init() and init_thread(): every case is a child process with its own rcfile, channels and threads.
// args: dir seed first_case cases
#include "script.h"
#include <libcwd/threads_created.h>
#include <csignal>
#include <fstream>
#include <barrier>
#include <sys/mman.h>
#include <sys/wait.h>

namespace {

std::string at;

void fail(std::string const& key, std::string const& d) { report.fail(key, at + ": " + d); }

std::string str(libcwd::DebugString const& s) { return std::string(s.c_str(), s.size()); }

struct Chan { libcwd::Channel* c; std::string label; bool in_rc; bool before_init; };

struct World
{
  Rng rng;
  std::vector<Chan> chans;
  std::map<int, int> main_off;          // Off counters of the main thread.
  bool main_object_on = true;
  bool with_default;
  libcwd::thread_init_t default_mode;
  std::atomic<long> unnamed{0}, checked{0}, named{0}, states{0};
  std::atomic<bool> any_unnamed{false};
  std::mutex m;
  std::map<std::string, long> expected_lines;      // "Thread started" lines that must be written.
  explicit World(uint64_t s) : rng(s) { }
};

void check_new(World& w)
{
  LIBCWD_TSD_DECLARATION;
  if (libcwd::libcw_do.is_on(LIBCWD_TSD)) fail("new-thread:object-on", "the debug object is on in a new thread");
  for (Chan& c : w.chans) if (c.c->is_on()) fail("new-thread:channel-on", "channel " + c.label + " is on in a new thread");
  if (!str(libcwd::libcw_do.margin()).empty()) fail("new-thread:margin", "margin '" + str(libcwd::libcw_do.margin()) + "' in a new thread");
}

struct Plan { libcwd::thread_init_t mode; std::string name; bool named; uint64_t seed; int kids; };

void check_state(World& w, std::map<int, int> const& off, bool object, std::string const& margin, char const* when)
{
  LIBCWD_TSD_DECLARATION;
  if (libcwd::libcw_do.is_on(LIBCWD_TSD) != object) fail(std::string(when) + ":object", std::string("the debug object is ") + (object ? "off" : "on"));
  for (size_t i = 0; i < w.chans.size(); ++i)
    if (w.chans[i].c->is_on() != (off.at(i) < 0))
      fail(std::string(when) + ":channel", "channel " + w.chans[i].label + " is " + (off.at(i) < 0 ? "off" : "on"));
  if (str(libcwd::libcw_do.margin()) != margin) fail(std::string(when) + ":margin", "margin '" + esc(str(libcwd::libcw_do.margin())) + "' expected '" + esc(margin) + "'");
  if (str(libcwd::libcw_do.marker()) != ": " || libcwd::libcw_do.get_indent() != 0) fail(std::string(when) + ":format", "marker or indent is not the default");
  if (!libcwd::libcw_do.has_mutex()) fail(std::string(when) + ":no-mutex", "the debug object has no mutex");
  w.states += w.chans.size();
}

void thread_main(World& w, Plan p, std::barrier<>& start)
{
  section_tid = (long)p.seed;
  Rng rng(p.seed);
  check_new(w);
  start.arrive_and_wait();
  libcwd::thread_init_t mode = p.mode == libcwd::thread_init_default ? w.default_mode : p.mode;
  bool object = mode == libcwd::copy_from_main ? w.main_object_on : mode != libcwd::debug_off;
  std::map<int, int> off;
  for (size_t i = 0; i < w.chans.size(); ++i)
    off[i] = mode == libcwd::from_rcfile && w.chans[i].in_rc ? -1 : mode == libcwd::copy_from_main && w.main_off.at(i) < 0 ? -1 : 0;
  std::string margin;
  if (p.named)
  {
    margin = p.name.substr(0, 15);
    margin.resize(std::max<size_t>(16, margin.size() + 1), ' ');
    if (object && off[0] < 0)
    {
      std::lock_guard<std::mutex> l(w.m);
      ++w.expected_lines[margin + "NOTICE"];
    }
  }
  else
  {
    char b[40];
    std::snprintf(b, sizeof b, "%12lx ", (unsigned long)pthread_self());
    margin = b;
    w.any_unnamed = true;
  }
  if (p.mode == libcwd::thread_init_default && !p.named) Debug(NAMESPACE_DEBUG::init_thread());
  else if (p.mode == libcwd::thread_init_default) Debug(NAMESPACE_DEBUG::init_thread(p.name));
  else if (!p.named) Debug(NAMESPACE_DEBUG::init_thread("", p.mode));
  else Debug(NAMESPACE_DEBUG::init_thread(p.name, p.mode));
  check_state(w, off, object, margin, "after-init");
  if (!p.named && !libcwd::init_functions::threads_created) fail("threads_created", "threads_created is not set by an unnamed thread");
  // Own changes stay own.
  for (int n = 0; n < 30; ++n)
  {
    size_t i = rng.below(w.chans.size());
    if (off[i] < 0 || rng.chance(40)) { w.chans[i].c->off(); ++off[i]; }
    else { w.chans[i].c->on(); --off[i]; }
    if (rng.chance(20)) { if (object) Debug(libcw_do.off()); else Debug(libcw_do.on()); object = !object; }
    if (rng.chance(20)) Dout(dc::notice, "x");
    if (rng.chance(30)) check_state(w, off, object, margin, "later");
  }
  if (p.kids)
  {
    std::barrier<> b(p.kids);
    std::vector<std::thread> ths;
    for (int k = 0; k < p.kids; ++k)
    {
      Plan q{(libcwd::thread_init_t)rng.below(4), "kid" + std::to_string(k) + "of" + std::to_string(p.seed % 100000), rng.chance(50), rng.next() >> 1, 0};
      ths.emplace_back([&w, q, &b] { thread_main(w, q, b); });
    }
    for (auto& t : ths) t.join();
  }
  check_state(w, off, object, margin, "end");
  ++w.checked;
  ++(p.named ? w.named : w.unnamed);
}

std::string pick_label(Rng& rng, std::set<std::string>& used, int maxlen)
{
  for (;;)
  {
    std::string l;
    int n = 1 + rng.below(maxlen);
    for (int i = 0; i < n; ++i) l += rng.chance(80) ? (char)('A' + rng.below(26)) : rng.chance(50) ? '_' : (char)('a' + rng.below(26));
    std::string u;
    for (char c : l) u += (char)toupper(c);
    if (used.insert(u).second) return l;
  }
}

void child(std::string const& dir, uint64_t seed)
{
  World w(seed);
  Rng& rng = w.rng;
  std::set<std::string> used;
  ForAllDebugChannels( { std::string l = debugChannel.get_label(); l.erase(l.find_last_not_of(' ') + 1); used.insert(l); } );
  auto add = [&](libcwd::Channel* c, std::string l, bool before) { w.chans.push_back({c, l, false, before}); };
  add(&libcwd::channels::dc::notice, "NOTICE", true);
  add(&libcwd::channels::dc::system, "SYSTEM", true);
  add(&libcwd::channels::dc::warning, "WARNING", true);
  auto create = [&](bool before) {
    std::string l = pick_label(rng, used, before ? (rng.chance(30) ? 16 : 8) : 16);
    add(new (std::calloc(1, sizeof(libcwd::Channel))) libcwd::Channel(l.c_str()), l, before);
  };
  for (int i = rng.below(6); i > 0; --i) create(true);
  // The rcfile.
  bool deflt = rng.chance(30), silent = rng.chance(80);
  std::string rc = dir + "/rc" + std::to_string(getpid());
  {
    std::ofstream f(rc);
    if (silent) f << "silent = on\n";
    f << "channels_default = " << (deflt ? "on" : "off") << "\n";
    for (Chan& c : w.chans) c.in_rc = deflt;
    int n = rng.below(5);
    for (int i = 0; i < n; ++i)
    {
      bool on = rng.chance(60);
      f << (on ? "channels_on" : "channels_off") << " = ";
      int k = 1 + rng.below(3);
      for (int j = 0; j < k; ++j)
      {
        Chan& c = w.chans[rng.below(w.chans.size())];
        std::string l = c.label;
        if (rng.chance(40)) for (char& x : l) x = rng.chance(50) ? toupper(x) : tolower(x);
        f << (j ? "," : "") << l;
        // A mask matches every channel with that label, whatever the case.
        for (Chan& o : w.chans) if (strcasecmp(o.label.c_str(), c.label.c_str()) == 0) o.in_rc = on;
      }
      f << "\n";
    }
  }
  setenv("LIBCWD_RCFILE_NAME", rc.c_str(), 1);
  unsetenv("LIBCWD_RCFILE_OVERRIDE_NAME");
  static CapBuf buf;
  static std::ostream os(&buf);
  static MonMutex mutex;
  bool own_mutex = rng.chance(60);
  static Hang in;
  std::cin.rdbuf(&in);
  if (own_mutex) { libcwd::libcw_do.set_ostream(&os, &mutex); buf.mutex = &mutex; }
  else libcwd::libcw_do.set_ostream(&os);
  if (rng.chance(50)) { Debug(libcw_do.on()); Dout(dc::warning, "early"); Debug(libcw_do.off()); }
  Debug(NAMESPACE_DEBUG::init());
  unlink(rc.c_str());
  std::string out = buf.text;
  if (silent && out.find("rcfile") != std::string::npos) fail("silent", "the rcfile is silent but '" + esc(out) + "' was written");
  for (size_t i = 0; i < w.chans.size(); ++i) w.main_off[i] = w.chans[i].in_rc ? -1 : 0;
  // What init() leaves as counter of a channel that is off is not specified; bring the channels in a known state.
  check_state(w, w.main_off, true, "", "main-init");
  Debug(libcw_do.off());
  { LIBCWD_TSD_DECLARATION; if (libcwd::libcw_do.is_on(LIBCWD_TSD)) fail("main-init:object-count", "one off() does not turn the debug object off after init()"); }
  Debug(libcw_do.on());
  // More channels, with longer labels.
  if (rng.chance(40)) for (int i = 1 + rng.below(3); i > 0; --i) { create(false); w.main_off[w.chans.size() - 1] = 0; }
  // The main thread changes its mind about some.
  for (int n = rng.below(8); n > 0; --n)
  {
    size_t i = rng.below(w.chans.size());
    if (w.main_off[i] < 0) { w.chans[i].c->off(); w.main_off[i] = 0; }
    else { while (!w.chans[i].c->is_on()) w.chans[i].c->on(); w.main_off[i] = -1; }
  }
  if (rng.chance(20)) { Debug(libcw_do.off()); w.main_object_on = false; }
  libcwd::thread_init_t modes[] = {libcwd::from_rcfile, libcwd::copy_from_main, libcwd::debug_off};
  w.default_mode = libcwd::from_rcfile;
  for (int round = 1 + rng.below(2); round > 0; --round)
  {
    int n = 1 + rng.below(8);
    std::barrier<> b(n);
    std::vector<std::thread> ths;
    for (int k = 0; k < n; ++k)
    {
      std::string name = rng.chance(50) ? "thread-" + std::to_string(k) : rng.chance(30) ? "a" : "a_rather_long_thread_name";
      if (rng.chance(20)) name = std::string("exactly15chars_x").substr(0, 14 + rng.below(3));
      Plan p{rng.chance(30) ? libcwd::thread_init_default : rng.pick(std::vector<libcwd::thread_init_t>(modes, modes + 3)), name, rng.chance(50), rng.next() >> 1,
             rng.chance(15) ? 1 + (int)rng.below(3) : 0};
      ths.emplace_back([&w, p, &b] { thread_main(w, p, b); });
    }
    for (auto& t : ths) t.join();
    check_state(w, w.main_off, w.main_object_on, "", "main-later");
  }
  // Every thread that could told what its margin is.
  std::map<std::string, long> got;
  size_t width = 0;
  { std::string l = libcwd::channels::dc::notice.get_label(); width = l.size(); }
  std::istringstream is(buf.text);
  for (std::string line; std::getline(is, line);)
  {
    size_t p = line.find("NOTICE");
    if (p == std::string::npos || line.find("Thread started. Set debug margin to \"") == std::string::npos) continue;
    std::string e = line.substr(0, p) + "NOTICE";
    if (line != line.substr(0, p) + ("NOTICE" + std::string(width - 6, ' ')) + ": Thread started. Set debug margin to \"" + line.substr(0, p) + "\".")
      fail("started-line", "'" + esc(line) + "'");
    ++got[e];
  }
  if (got != w.expected_lines) {
    std::string d;
    for (auto& x : got) d += "\\ngot " + std::to_string(x.second) + " x " + x.first;
    for (auto& x : w.expected_lines) d += "\\nexpected " + std::to_string(x.second) + " x " + x.first;
    fail("started-lines", d + "\\nthe lines that announce the margins are not those of the threads that were started with dc::notice on");
  }
  if (own_mutex && buf.unlocked_write) fail("unlocked-write", "the stream was written without its lock");
  report.eval(buf.text + std::to_string(w.checked));
  report.stat("threads", w.checked);
  report.stat("named", w.named);
  report.stat("unnamed", w.unnamed);
  report.stat("channel_states", w.states);
  report.done();
}

} // namespace

int main(int, char** argv)
{
  std::string dir = argv[1];
  uint64_t seed = std::strtoull(argv[2], nullptr, 10), first = std::strtoull(argv[3], nullptr, 10), cases = std::strtoull(argv[4], nullptr, 10);
  for (uint64_t i = first; i < first + cases; ++i)
  {
    at = "case " + std::to_string(seed * 1000003 + i);
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { alarm(60); child(dir, seed * 1000003 + i); std::fflush(stdout); _exit(report.failed.empty() ? 0 : 3); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3))
      report.fail("died", at + ": " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) break;
    report.stat("cases", 1);
  }
  return report.done();
}
