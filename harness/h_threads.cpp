// Concurrent threads execute random histories of debug statements; each keeps its own model of its own state, and what
// each of them sends to the stream is replayed afterwards, in the order in which the stream was locked.
// args: mode seed first_run runs ops threads
//   mode: l = lines, p = private state, e = thread creation and exit, o = streams are replaced
#include "script.h"

static libcwd::DebugObject second_do;

// Writes from a destructor of a static object, after main returned.
struct Late
{
  CapBuf buf;
  std::ostream os{&buf};
  MonMutex mutex;
  ~Late()
  {
    if (!armed) return;
    libcwd::libcw_do.set_ostream(&os, &mutex);
    buf.mutex = &mutex;
    Dout(dc::always, "after main");
    if (buf.text != expect) std::printf("FAIL late-output\tafter main '%s' was written, not '%s'\n", esc(buf.text).c_str(), esc(expect).c_str());
    std::fflush(stdout);
  }
  bool armed = false;
  std::string expect;
};
static Late late;

namespace {

struct Out
{
  CapBuf buf;
  std::ostream os{&buf};
  MonMutex* mutex;
  explicit Out(MonMutex* m) : mutex(m) { buf.mutex = m; }
};

struct World
{
  Mode mode;
  Rng rng;
  uint64_t seed;
  int ops;
  std::vector<libcwd::DebugObject*> objs{&libcwd::libcw_do, &second_do};
  std::vector<libcwd::Channel*>& chans;
  std::vector<std::string> labels;
  unsigned width;
  std::vector<std::unique_ptr<MonMutex>> mutexes;
  std::vector<std::unique_ptr<Out>> outs;
  std::vector<std::set<CapBuf*>> legal{2};              // The streams that each object has had.
  std::mutex m;
  std::map<long, std::vector<model::Send>> sends;       // What each thread sent, in its program order.
  std::vector<Section> retired;                         // Sections of mutexes that were destroyed.
  std::atomic<long> next_id{2};
  std::atomic<int> running{0}, total{0};
  std::atomic<bool> stop{false}, failed{false};
  std::map<std::string, long> seen;
  bool always = false;          // always_flush is a state of the object.

  World(Mode md, uint64_t sd, int o, std::vector<libcwd::Channel*>& ch, std::vector<std::string> const& l, unsigned w)
    : mode(md), rng(sd), seed(sd), ops(o), chans(ch), labels(l), width(w) { }
};

std::atomic<long> progress{0};

struct Worker
{
  World& w;
  Runner r;
  Runner::TCtx t;
  std::vector<model::Send> sent;

  Worker(World& world, long id, int ops)
    : w(world), r(world.mode, world.seed * 7919 + id, ops, world.chans, world.labels, world.width)
  {
    r.objs = w.objs;
    r.concurrent = true;
    t.id = id;
    r.m.init_thread(t.mt, id);
    t.mt.deferred = &sent;
    if (w.always) for (auto& o : r.m.objects) ++o.always_flush;
    if (id == 1) libcwd::location_format(0);    // The main thread had other cases.
  }
  void script()
  {
    section_tid = t.id;
    r.check(t);
    for (int i = 0, n = r.rng.below(3); i < n; ++i) r.begin(t, r.rng.below(2), false);      // All off.
    r.setup(t);
    while (!r.failed && !w.failed && r.budget > 0)
    {
      r.op(t);
      progress.fetch_add(1, std::memory_order_relaxed);
      if (w.mode == E && r.rng.chance(4)) spawn();
      if (r.failed) w.failed = true;
    }
    r.budget = 0;
    if (!r.failed) r.close_scope(t);
  }
  // Most threads put their state back; the others leave what they changed.
  void end(bool put_back)
  {
    if (put_back)
      r.restore(t);
    else
      for (int o = 0; o < 2; ++o)       // What is pushed may be left pushed as well.
        if (r.rng.chance(50)) { w.objs[o]->push_margin(); w.objs[o]->push_marker(); w.objs[o]->margin().append(std::string(100, 'm')); }
    std::lock_guard<std::mutex> l(w.m);
    for (auto& kv : r.seen) w.seen[kv.first] += kv.second;
    w.sends[t.id] = std::move(sent);
    if (r.failed) w.failed = true;
  }
  void spawn();
};

void thread_body(World* w, long id, int ops, unsigned kind)
{
  switch (kind)
  {
    case 0: break;                              // Does not use libcwd.
    case 1: { Debug(libcwd::libcw_do.on()); Debug(libcwd::libcw_do.off()); break; }
    case 2: { LIBCWD_TSD_DECLARATION; (void)LIBCWD_TSD; break; }
    default:
    {
      auto k = std::make_unique<Worker>(*w, id, ops);
      k->script();
      k->end(kind & 1);
    }
  }
  --w->running;
}

void Worker::spawn()
{
  if (w.stop || w.running >= 10 || w.total >= 120) return;
  ++w.running; ++w.total;
  long id = w.next_id++;
  unsigned kind = r.rng.below(10);
  int n = r.rng.below(30);
  std::thread x(thread_body, &w, id, n, kind);
  if (r.rng.chance(50)) { x.detach(); ++r.seen["detached"]; }
  else if (r.rng.chance(30)) { x.join(); ++r.seen["joined_at_once"]; }
  else x.detach();
  ++r.seen["threads"];
}

// The main thread's part while the others run.
void replace_streams(World& w, Worker& me, bool shared)
{
  std::vector<Out*> cur{w.outs[0].get(), shared ? w.outs[0].get() : w.outs[1].get()};
  auto retire = [&](Out* o) {
    o->buf.closed = true;
    bool still = false;
    for (Out* c : cur) if (c->mutex == o->mutex) still = true;
    bool destroy = w.rng.chance(70);
    if (!still)
    {
      // Nobody holds it: set_ostream waits for the statement that was writing.
      if (!o->mutex->m.try_lock()) report.fail("left-locked", "the mutex of the replaced stream is locked after set_ostream returned");
      else o->mutex->m.unlock();
      o->mutex->closed = true;
      if (destroy)
      {
        w.retired.insert(w.retired.end(), o->mutex->sections.begin(), o->mutex->sections.end());
        for (auto& x : w.mutexes) if (x.get() == o->mutex) x.reset();
      }
    }
    if (destroy)
      for (auto& x : w.outs) if (x.get() == o) { me.r.seen["destroyed_streams"]++; x.reset(); }
  };
  int n = 2 + w.rng.below(8);
  for (int i = 0; i < n && !w.failed && w.running > 0; ++i)
  {
    for (int k = w.rng.below(6); k > 0; --k) me.r.op(me.t);
    unsigned how = w.rng.below(5);
    int o = w.rng.below(2);
    Out* old = cur[o];
    if (how == 0)                       // The same again.
    {
      section_tid = -2;         // It locks the old mutex.
      w.objs[o]->set_ostream(&old->os, old->mutex);
      section_tid = 1;
      ++me.r.seen["same_again"];
      continue;
    }
    MonMutex* mx;
    if (how == 1) mx = old->mutex;      // Another stream with the same mutex.
    else { w.mutexes.push_back(std::make_unique<MonMutex>(true)); mx = w.mutexes.back().get(); }
    w.outs.push_back(std::make_unique<Out>(mx));
    Out* nw = w.outs.back().get();
    {
      std::lock_guard<std::mutex> l(w.m);
      for (int j = 0; j < 2; ++j)
        if (j == o || shared) w.legal[j].insert(&nw->buf);
    }
    // Without lock argument the lock stays the same (that gives a warning, if that channel is on, as it is not in a new thread).
    bool const keep = how == 1 && w.rng.chance(70);
    for (int j = 0; j < 2; ++j)
      if (j == o || shared)
      {
        section_tid = -2;
        if (keep) { std::thread([&]{ section_tid = -2; w.objs[j]->set_ostream(&nw->os); }).join(); ++me.r.seen["kept_lock"]; }
        else w.objs[j]->set_ostream(&nw->os, mx);
        section_tid = 1;
        cur[j] = nw;
        if (w.objs[j]->get_ostream() != &nw->os) report.fail("get_ostream", "get_ostream does not return the stream that was set");
        if (!w.objs[j]->has_mutex()) report.fail("has_mutex", "has_mutex is false after a mutex was set");
      }
    retire(old);
    ++me.r.seen["replaced"];
    if (w.rng.chance(30)) usleep(w.rng.below(300));
  }
}

void compare(World& w)
{
  std::vector<Section> all = std::move(w.retired);
  for (auto& m : w.mutexes) if (m) all.insert(all.end(), m->sections.begin(), m->sections.end());
  std::sort(all.begin(), all.end(), [](Section const& a, Section const& b) { return a.seq < b.seq; });
  model::Object obj[2];
  obj[0].index = 0; obj[1].index = 1;
  std::map<long, size_t> pos;
  std::string order, sum;
  long last = -1, alternations = 0;
  auto context = [&](size_t i) {
    std::string d = "run " + std::to_string(w.seed) + (w.always ? " always_flush" : "");
    for (size_t k = i > 12 ? i - 12 : 0; k <= i && k < all.size(); ++k)
      d += "\\n  thread " + std::to_string(all[k].tid) + ": " + esc(all[k].text, 160);
    return d;
  };
  for (size_t i = 0; i < all.size(); ++i)
  {
    Section& s = all[i];
    if (s.tid != last) ++alternations;
    last = s.tid;
    order += (char)('0' + s.tid % 60);
    sum += s.text;
    if (s.tid < 0) continue;            // Written by the program itself.
    size_t k = pos[s.tid]++;
    auto const& v = w.sends[s.tid];
    if (k >= v.size()) { report.fail("extra", "a thread locked the stream more often than it had something to write: " + context(i)); return; }
    model::Send const& x = v[k];
    model::Stream e;
    model::Model::apply(x, obj[x.object], e);
    if (e.text != s.text)
    {
      report.fail("section-text", "expected in this order: '" + esc(e.text) + "' but written was '" + esc(s.text) + "': " + context(i));
      return;
    }
    if (e.flushes != s.flushes) { report.fail("section-flush", "flushes " + std::to_string(s.flushes) + " expected " + std::to_string(e.flushes) + ": " + context(i)); return; }
    if (s.several) { report.fail("two-streams", "one statement was written to two streams: " + context(i)); return; }
    if (s.buf && !w.legal[x.object].count(s.buf)) { report.fail("wrong-stream", "written to a stream of another object: " + context(i)); return; }
  }
  for (auto& kv : w.sends)
    if (pos[kv.first] != kv.second.size())
    {
      report.fail("lost", "run " + std::to_string(w.seed) + " thread " + std::to_string(kv.first) + " wrote " + std::to_string(pos[kv.first]) + " times, not " +
                  std::to_string(kv.second.size()) + " times; first missing: " + esc(kv.second[pos[kv.first]].text));
      return;
    }
  for (auto& m : w.mutexes)
    if (m && m->owner.load() != std::thread::id()) report.fail("left-locked", "a mutex is locked at the end");
  report.eval(order);
  report.stat("sections", all.size());
  report.stat("alternations", alternations);
  report.stat("bytes", sum.size());
  auto occ = [&](char const* x) { long n = 0; for (size_t p = 0; (p = sum.find(x, p)) != std::string::npos; ++p) ++n; return n; };
  report.stat("unfinished", occ("<unfinished>"));
  report.stat("continued", occ("<continued>"));
  report.stat("no_newline", occ("<no newline>"));
  if (w.seed % 7 == 3) report.sample(order.substr(0, 200));
}

void watchdog()
{
  long last = -1;
  int same = 0;
  for (;;)
  {
    usleep(500000);
    long p = progress.load();
    same = p == last ? same + 1 : 0;
    last = p;
    if (same > 120)
    {
      report.fail("deadlock", "no thread made progress for 60 s");
      report.done();
      std::_Exit(0);
    }
  }
}

void run(Mode mode, uint64_t seed, int ops, int nthreads, std::vector<libcwd::Channel*>& chans, std::vector<std::string> const& labels, unsigned width)
{
  auto wp = std::make_unique<World>(mode, seed, ops, chans, labels, width);
  World& w = *wp;
  delay_percent = w.rng.below(3) * 10;
  bool shared = w.rng.chance(50), one_mutex = shared || w.rng.chance(30);
  for (int i = 0; i < (one_mutex ? 1 : 2); ++i) w.mutexes.push_back(std::make_unique<MonMutex>(true));
  for (int i = 0; i < (shared ? 1 : 2); ++i) w.outs.push_back(std::make_unique<Out>(w.mutexes[one_mutex ? 0 : i].get()));
  for (int o = 0; o < 2; ++o)
  {
    Out& x = *w.outs[shared ? 0 : o];
    w.objs[o]->set_ostream(&x.os, x.mutex);
    w.legal[o].insert(&x.buf);
  }
  bool always = w.always = w.rng.chance(20) && mode != O;
  if (always) for (auto o : w.objs) o->always_flush_on();
  {
    section_tid = 1;
    Worker me(w, 1, ops);
    me.r.setup(me.t);
    int n = mode == E ? 1 + w.rng.below(4) : 1 + w.rng.below(nthreads);
    w.running += n; w.total += n;
    std::vector<std::thread> ths;
    for (int i = 0; i < n; ++i)
    {
      long id = w.next_id++;
      int nops = mode == E ? 1 + w.rng.below(ops) : ops;
      unsigned put_back = w.rng.below(2);
      ths.emplace_back([&w, id, nops, put_back] {
        auto k = std::make_unique<Worker>(w, id, nops);
        k->script();
        k->end(put_back);
        --w.running;
      });
    }
    if (mode == O)
      replace_streams(w, me, shared);
    else
      while (!me.r.failed && !w.failed && me.r.budget > 0)
      {
        me.r.op(me.t);
        progress.fetch_add(1, std::memory_order_relaxed);
        if (mode == E && w.rng.chance(10)) me.spawn();
        if (w.rng.chance(5))            // The program writes to the same stream itself, under the same lock.
        {
          Out& x = *w.outs[0];
          section_tid = -1;
          x.mutex->lock();
          x.os << "The application\n";
          x.mutex->unlock();
          section_tid = 1;
        }
      }
    me.r.budget = 0;
    if (!me.r.failed) me.r.close_scope(me.t);
    w.stop = true;
    for (auto& x : ths) x.join();
    while (w.running > 0) usleep(100);
    if (me.r.failed || w.failed)
    {
      report.done();
      std::_Exit(0);
    }
    me.end(true);         // This also turns always_flush off.
  }
  compare(w);
  ++progress;
  // An incomplete line of this run must not reach into the next one.
  static std::ostream sink(nullptr);
  static MonMutex sink_mutex;
  for (auto o : w.objs)
  {
    o->set_ostream(&sink, &sink_mutex);
    o->on();
    LibcwDout(LIBCWD_DEBUG_CHANNELS, *o, dc::always, "");
    o->off();
  }
  for (auto& kv : w.seen) report.stat(kv.first.c_str(), kv.second);
  report.stat("runs", 1);
}

} // namespace

int main(int argc, char** argv)
{
  setenv("LIBCWD_RCFILE_NAME", "/dev/null", 0);
  Mode mode = (Mode)argv[1][0];
  uint64_t seed = arg_u64(argc, argv, 2, 1), first = arg_u64(argc, argv, 3, 0), runs = arg_u64(argc, argv, 4, 10);
  int ops = arg_u64(argc, argv, 5, 100), nthreads = arg_u64(argc, argv, 6, 6);
  libcwd::_private_::DebugChannels::instance();
  std::vector<libcwd::Channel*> chans{&libcwd::channels::dc::notice, &libcwd::channels::dc::system};
  std::vector<std::string> labels{"NOTICE", "SYSTEM"};
  unsigned width = 8;
  for (std::string l : {std::string("A"), std::string("lower"), std::string("X_LONGEST_LA"), std::string("MIDDLE")})
  {
    alignas(libcwd::Channel) static unsigned char mem[8][sizeof(libcwd::Channel)];
    chans.push_back(new (mem[chans.size()]) libcwd::Channel(l.c_str()));
    labels.push_back(l);
    width = std::max<unsigned>(width, l.size());
  }
  std::thread(watchdog).detach();
  for (uint64_t i = first; i < first + runs; ++i)
    run(mode, seed * 1000003 + i, ops, nthreads, chans, labels, width);
  late.expect = std::string(width, '>') + ": after main\n";
  late.armed = true;
  libcwd::libcw_do.on();
  report.done();
}
