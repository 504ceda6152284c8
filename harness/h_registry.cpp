// The registry of debug channels: one random history per process, in static constructors, main, threads and a library.
#include "sys.h"
#include "debug.h"
#include <libcwd/libraries_debug.h>
#include "vk.h"
#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <new>
#include <iostream>
#include <sstream>
#include <thread>

using namespace libcwd;

// Usable before the static objects of this unit are constructed.
static vk::Report& rep() { static vk::Report* r = new vk::Report; return *r; }

struct Entry { Channel* c; std::string label; bool visible; };

struct World
{
  std::vector<Entry> entries;
  std::map<Channel*, int> off;          // Of the main thread: the off counter; -1 is on.
  size_t max_len = 0;
  std::ostringstream out;
  vk::Rng rng{1};
  int count = 0;                        // Channels still to be created.
  std::string alphabet;
  std::vector<std::string> stems;
  int max_label = 16;
  bool started = false;
};
static World& world() { static World* w = new World; return *w; }
static bool zero_index_used = false;
static thread_local bool object_on = false;

alignas(64) static char storage[256][(sizeof(Channel) + 63) / 64 * 64];
static int used = 0;

static std::string padded(std::string const& l, size_t n) { std::string r = l; r.resize(n, ' '); return r; }

static std::string random_label(World& w)
{
  vk::Rng& r = w.rng;
  std::string l;
  if (!w.stems.empty() && r.chance(60))
  {
    l = r.pick(w.stems);
    if (r.chance(30)) l.resize(1 + r.below(l.size()));
    if (r.chance(30)) for (auto& c : l) if (r.chance(50)) c = r.chance(50) ? std::tolower(c) : std::toupper(c);
  }
  size_t n = r.chance(70) ? 1 + r.below(6) : r.below(12);
  if (r.chance(60)) for (size_t i = 0; i < n; ++i) l += w.alphabet[r.below(w.alphabet.size())];
  if (l.empty()) l = "X";
  if (l.size() > (size_t)w.max_label) l.resize(w.max_label);
  if (r.chance(3)) l.resize(w.max_label, 'Q');
  if (r.chance(6)) { static char const* s[] = { "WARNING", "WARN", "W", "WARNINGS", "warning", "NOTICE", "DEBUG", "COREDUMP", "FATAL", "!NEVER!", "AWARNING" }; l = s[r.below(11)]; if (l.size() > (size_t)w.max_label) l.resize(w.max_label); }
  w.stems.push_back(l);
  return l;
}

static Channel* create(std::string const& label, bool visible, int slot)
{
  vk::Exact e(label, true);
  Channel* c = new (storage[slot]) Channel(e.p, visible);
  return c;
}

static void add(World& w, Channel* c, std::string const& label, bool visible, bool here)
{
  w.entries.push_back({ c, label, visible });
  w.max_len = std::max(w.max_len, label.size());
  w.off[c] = here && label == "WARNING" ? -1 : 0;
}

static std::vector<Entry> visible_sorted(World& w)
{
  std::vector<Entry> v;
  for (auto const& e : w.entries) if (e.visible) v.push_back(e);
  std::stable_sort(v.begin(), v.end(), [&](Entry const& a, Entry const& b) { return padded(a.label, 16) < padded(b.label, 16); });
  return v;
}

static void fail(char const* key, std::string const& d, char const* when)
{
  World& w = world();
  std::string all;
  for (auto const& e : w.entries) all += e.label + (e.visible ? " " : "(hidden) ");
  rep().fail(key, vk::esc(d, 2000) + " [" + when + "; channels in order of creation: " + vk::esc(all, 2000) + "]");
}

// The built-in channels; found once through the registry, so their labels are given here.
static void builtins(World& w)
{
  if (w.started) return;
  w.started = true;
  struct { Channel* c; char const* l; } b[] = {
    { &channels::dc::debug, "DEBUG" }, { &channels::dc::elfutils, "ELFUTILS" }, { &channels::dc::warning, "WARNING" },
    { &channels::dc::notice, "NOTICE" }, { &channels::dc::system, "SYSTEM" } };
  for (auto& x : b) add(w, x.c, x.l, true, true);
  w.max_len = std::max(w.max_len, strlen("COREDUMP"));
}

// Compare everything that can be observed with the model. on: the state in the calling thread.
static void check(std::map<Channel*, int> const& off, DebugObject& d, std::ostringstream& os, char const* when, vk::Rng& r)
{
  World& w = world();
  std::vector<Entry> v = visible_sorted(w);
  // Visits.
  std::vector<Channel*> visited;
  std::vector<std::string> labels;
  ForAllDebugChannels(visited.push_back(&debugChannel); labels.push_back(debugChannel.get_label()));
  std::vector<std::string> want;
  for (auto const& e : v) want.push_back(padded(e.label, w.max_len));
  if (labels != want)
  {
    std::string a, b;
    for (auto const& l : labels) a += l + "|";
    for (auto const& l : want) b += l + "|";
    fail("visits", "visited " + a + " expected " + b, when);
  }
  std::set<Channel*> s(visited.begin(), visited.end()), t;
  for (auto const& e : v) t.insert(e.c);
  if (s != t || s.size() != visited.size())
    fail("visits-once", "the set of visited channels is wrong", when);
  // Labels.
  for (auto const& e : w.entries)
    if (e.c->get_label() != padded(e.label, w.max_len))
      fail("padding", "label '" + std::string(e.c->get_label()) + "' of " + e.label + " at maximum " + std::to_string(w.max_len), when);
  if (channels::dc::fatal.get_label() != padded("FATAL", w.max_len) || channels::dc::core.get_label() != padded("COREDUMP", w.max_len))
    fail("fatal-padding", std::string("labels '") + channels::dc::fatal.get_label() + "' and '" + channels::dc::core.get_label() + "'", when);
  // States.
  for (auto const& e : w.entries)
  {
    auto it = off.find(e.c);
    bool on = it != off.end() && it->second < 0;
    if (e.c->is_on() != on)
      fail("state", e.label + (on ? " should be on" : " should be off"), when);
    if (e.c->index() == 0) zero_index_used = true;
  }
  std::set<int> idx;
  for (auto const& e : w.entries)
    if (!idx.insert(e.c->index()).second)
      fail("index", e.label + " shares its index", when);
  // Listing.
  if (object_on)
  {
    std::string expect;
    std::string m(d.margin().c_str(), d.margin().size());
    for (auto c : visited)
    {
      std::string l;
      for (auto const& e : v) if (e.c == c) l = e.label;
      expect += m + padded(l, w.max_len) + (c->is_on() ? ": Enabled\n" : ": Disabled\n");
    }
    os.str("");
    list_channels_on(d);
    if (os.str() != expect)
      fail("listing", "list_channels_on wrote:\n" + os.str() + "expected:\n" + expect, when);
    // A line of a channel that is on.
    std::vector<Entry> on;
    for (auto const& e : w.entries) if (e.c->is_on()) on.push_back(e);
    if (!on.empty())
    {
      Entry const& e = r.pick(on);
      os.str("");
      LibcwDout(libcwd::channels, d, *e.c, "text");
      std::string want = m + padded(e.label, w.max_len) + std::string(d.marker().c_str(), d.marker().size()) + "text\n";
      if (os.str() != want)
        fail("line", "wrote '" + os.str() + "' expected '" + want + "'", when);
    }
  }
  // Lookup.
  for (int i = 0; i < 12; ++i)
  {
    std::string q;
    switch (r.below(5))
    {
      case 0: q = r.pick(w.entries).label; break;
      case 1: q = r.pick(w.entries).label; q.resize(r.below(q.size() + 1)); break;
      case 2: q = r.pick(w.entries).label; q += w.alphabet[r.below(w.alphabet.size())]; break;
      case 3: q = r.pick(w.entries).label; q[r.below(q.size())] = w.alphabet[r.below(w.alphabet.size())]; break;
      default: for (size_t n = r.below(20); n > 0; --n) q += w.alphabet[r.below(w.alphabet.size())];
    }
    for (auto& c : q) if (r.chance(50)) c = std::isupper((unsigned char)c) ? std::tolower(c) : std::toupper(c);
    Channel* want = nullptr;
    std::string want_label = "(none)";
    auto lower = [](std::string x) { for (auto& c : x) c = std::tolower(c); return x; };
    for (auto const& e : v)
    {
      std::string l = padded(e.label, w.max_len);
      if (lower(l).compare(0, q.size(), lower(q)) == 0 && l.size() >= q.size()) { want = e.c; want_label = e.label; }
    }
    vk::Exact ex(q, true);
    Channel* got = find_channel(ex.p);
    std::string got_label = "(none)";
    for (auto const& e : w.entries) if (e.c == got) got_label = e.label;
    if (got_label != want_label || (got == nullptr) != (want == nullptr))
      fail("lookup", "find_channel(\"" + q + "\") gave " + got_label + ", expected " + want_label, when);
    rep().stat("lookups", 1);
  }
  rep().stat("comparisons", 1);
}

static void toggle(std::map<Channel*, int>& off, vk::Rng& r, std::vector<Entry> const& entries)
{
  for (int i = r.below(12); i > 0; --i)
  {
    Channel* c = r.pick(entries).c;
    int& o = off[c];
    if (o == -1 || (o < 3 && r.chance(40))) { c->off(); ++o; }
    else { c->on(); --o; }
  }
}

static void phase(char const* when)
{
  World& w = world();
  builtins(w);
  int n = std::min<int>(w.count, w.rng.below(w.rng.chance(15) ? 120 : 12));
  for (int i = 0; i < n; ++i)
  {
    std::string l = random_label(w);
    bool vis = w.rng.chance(85);
    Channel* c = create(l, vis, used++);
    add(w, c, l, vis, true);
    if (w.rng.chance(25)) toggle(w.off, w.rng, w.entries);
    if (w.rng.chance(10)) check(w.off, libcw_do, w.out, when, w.rng);
  }
  w.count -= n;
  toggle(w.off, w.rng, w.entries);
  check(w.off, libcw_do, w.out, when, w.rng);
}

// Before (nearly) everything else.
struct EarlyPhase
{
  explicit EarlyPhase(char const* when)
  {
    World& w = world();
    if (char const* s = getenv("VK_EARLY"))
    {
      if (w.count == 0 && used == 0)
      {
        uint64_t seed = strtoull(s, nullptr, 10);
        w.rng = vk::Rng(seed);
        w.count = w.rng.chance(10) ? 225 : w.rng.below(60);
        static char const* alph[] = { "ABC", "AB_1", "abAB", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "A!~z", "WARNINGwarning" };
        w.alphabet = alph[w.rng.below(6)];
        w.max_label = w.rng.chance(50) ? 16 : 8 + w.rng.below(9);
      }
      // Channels may be created before libcwd is initialized, but not be used.
      if (!w.started && w.rng.chance(40))
        for (int n = w.rng.below(5); n > 0; --n)
        {
          std::string l = random_label(w);
          bool vis = w.rng.chance(80);
          Channel* c = create(l, vis, used++);
          add(w, c, l, vis, true);
          rep().stat("before_initialization", 1);
        }
      libcwd::initialize();
      builtins(w);
      if (w.rng.chance(60)) phase(when);
    }
  }
};
static EarlyPhase early __attribute__((init_priority(101)))("in the first static constructor");
static EarlyPhase later("in a static constructor");

int main(int argc, char** argv)
{
  World& w = world();
  bool race = vk::arg_u64(argc, argv, 1, 0);
  char const* module = argc > 2 ? argv[2] : nullptr;
  w.rng.next();
  static std::mutex out_mutex;
  libcw_do.set_ostream(&w.out, &out_mutex);
  libcw_do.on(); object_on = true;
  phase("in main");
  phase("in main");
  // A thread with its own state: created channels are off in other threads, also when on here.
  for (int round = 0; round < 2; ++round)
  {
    int kinds = w.rng.below(3);
    if (kinds == 0) continue;
    int nt = kinds == 1 ? 1 : 2 + w.rng.below(5);
    std::vector<std::vector<Entry>> made(nt);
    std::vector<std::vector<std::pair<std::string, bool>>> plan(nt);
    std::vector<std::map<Channel*, int>> states(nt);
    std::vector<int> first(nt);
    for (int t = 0; t < nt; ++t)
    {
      int n = std::min<int>(w.count, w.rng.below(6));
      first[t] = used;
      used += n;
      w.count -= n;
      for (int i = 0; i < n; ++i)
      {
        std::string l = random_label(w);
        plan[t].push_back({ l, w.rng.chance(85) });
      }
    }
    uint64_t base = w.rng.next();
    std::vector<Entry> known = w.entries;
    std::atomic<int> ready{0};
    std::atomic<bool> stop{false};
    std::vector<std::thread> threads;
    for (int t = 0; t < nt; ++t)
      threads.emplace_back([&, t] {
        vk::Rng r(base + t);
        ++ready;
        while (ready < nt) ;
        for (size_t i = 0; i < plan[t].size(); ++i)
        {
          Channel* c = create(plan[t][i].first, plan[t][i].second, first[t] + i);
          made[t].push_back({ c, plan[t][i].first, plan[t][i].second });
          states[t][c] = plan[t][i].first == "WARNING" ? -1 : 0;
          if (race && r.chance(50))
          {
            // Visits at the same time see every channel that was there at the start once, in order.
            std::vector<Channel*> seen;
            std::vector<std::string> labels;
            ForAllDebugChannels(seen.push_back(&debugChannel); labels.push_back(debugChannel.get_label()));
            for (auto const& e : known)
              if (std::count(seen.begin(), seen.end(), e.c) != (e.visible ? 1 : 0))
                fail("concurrent-visits", e.label + " is not visited once during the registration of others", "in threads");
            for (size_t k = 1; k < labels.size(); ++k)
              if (labels[k - 1] > labels[k] || labels[k - 1].size() != labels[k].size())
                fail("concurrent-order", labels[k - 1] + " comes before " + labels[k], "in threads");
            rep().stat("concurrent_visits", 1);
          }
        }
        toggle(states[t], r, made[t].empty() ? known : made[t]);
      });
    for (auto& t : threads) t.join();
    for (auto const& m : made)
      for (auto const& e : m)
        add(w, e.c, e.label, e.visible, false);
    rep().stat("threads", nt);
    check(w.off, libcw_do, w.out, "after threads", w.rng);
    // A new thread sees the same registry, with everything off.
    std::thread([&] {
      std::map<Channel*, int> none;
      libcw_do.on(); object_on = true;
      check(none, libcw_do, w.out, "in a new thread", w.rng);
      toggle(none, w.rng, w.entries);
      check(none, libcw_do, w.out, "in a new thread", w.rng);
    }).join();
    check(w.off, libcw_do, w.out, "after a thread", w.rng);
  }
  if (module && w.rng.chance(50))
  {
    void* h = dlopen(module, RTLD_NOW);
    if (!h) { std::fprintf(stderr, "%s\n", dlerror()); return 3; }
    for (int i = 0; i < 3; ++i)
    {
      static char const* names[] = { "module_a", "module_b", "module_hidden" };
      static char const* labels[] = { "MODULE_A", "WARNING", "MODHIDDEN" };
      Channel* c = (Channel*)dlsym(h, names[i]);
      if (!c) { std::fprintf(stderr, "%s\n", dlerror()); return 3; }
      add(w, c, labels[i], i != 2, true);
    }
    check(w.off, libcw_do, w.out, "after dlopen", w.rng);
    rep().stat("libraries", 1);
  }
  phase("in main");
  if (zero_index_used) fail("index", "a channel has index 0", "at the end");
  std::string all;
  for (auto const& e : w.entries) all += e.label + ",";
  rep().eval(all, w.entries.size() > 6);
  rep().sample(all);
  rep().stat("channels", w.entries.size());
  libcw_do.set_ostream(&std::cerr);
  return rep().done();
}
