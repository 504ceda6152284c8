// L02: AIRefCount: deleted exactly once, by the release of the last reference, after everything that was done through the other references.
#include "vk.h"
#include <atomic>
#ifdef __has_feature
#if __has_feature(thread_sanitizer)
#define __SANITIZE_THREAD__ 1
#endif
#endif
#ifdef __SANITIZE_THREAD__
// ThreadSanitizer does not know fences. An acquire fence is shown to it as the acquire of everything that was released through an
// atomic inside the object that this thread is working on; which is what the fence does for the counter that was just read.
extern "C" void __tsan_acquire(void*);
static thread_local void const* t_object;
static thread_local size_t t_size;
static inline void tsan_fence(std::memory_order o)
{
  if (o == std::memory_order_relaxed || o == std::memory_order_release || !t_object) return;
  for (size_t i = 0; i < t_size; i += 4) __tsan_acquire((char*)const_cast<void*>(t_object) + i);
}
namespace std { static inline void vk_fence(memory_order o) { ::tsan_fence(o); } }
#define atomic_thread_fence vk_fence
#define WORKING_ON(p) (t_object = static_cast<AIRefCount const*>(p), t_size = sizeof(AIRefCount))
#else
#define WORKING_ON(p) ((void)(p))
#endif
#include "utils/AIRefCount.h"
#undef atomic_thread_fence
#include <libcwd/debug.h>
#include <thread>
#include <algorithm>
using namespace vk;
constexpr int TMAX = 6;
static std::vector<std::atomic<int>> g_dead(1 << 22);
static std::atomic<long> g_next{0};

struct Other { int o = 17; virtual ~Other() { } };
struct Obj : AIRefCount
{
  long id = g_next++;
  long slot[TMAX] = {};         // Written by the thread with that number, not atomically.
  long* sum;
  Obj(long* s = nullptr) : sum(s) { }
  Obj(Obj const& o) : AIRefCount(o), sum(o.sum) { }
  Obj& operator=(Obj const& o) { AIRefCount::operator=(o); return *this; }
  ~Obj() { long n = 0; for (long s : slot) n += s; if (sum) *sum = n; g_dead[id & ((1 << 22) - 1)]++; }
};
struct Derived : Other, Obj { using Obj::Obj; std::string text = "some text that is longer than fits inside"; ~Derived() { if (text.size() != 41 || o != 17) std::abort(); } };
static int dead(long id) { return g_dead[id & ((1 << 22) - 1)]; }
using Ptr = boost::intrusive_ptr<Obj>;

static void single(Report& rep, Rng& r, int n)
{
  for (int h = 0; h < n; ++h)
  {
    struct O { Obj* raw; long id; int count; };
    std::vector<O> objs;
    std::vector<Ptr> p(5);
    int at[5] = {-1, -1, -1, -1, -1};
    std::vector<std::pair<int, int>> inhibited;         // object, number
    std::string log;
    bool bad = false;
    auto check = [&](char const* op) {
      log += op; log += ' ';
      for (auto& o : objs)
      {
        bool gone = o.count == 0;
        if (dead(o.id) != (gone ? 1 : 0)) { rep.fail(std::string("destroyed:") + op, log + "object destroyed " + std::to_string(dead(o.id)) + " times, count " + std::to_string(o.count)); bad = true; }
        else if (!gone && (o.raw->read_count_racy() != o.count || o.raw->is_destructed())) { rep.fail(std::string("count:") + op, log + std::to_string(o.raw->read_count_racy()) + " expected " + std::to_string(o.count)); bad = true; }
      }
      for (int i = 0; i < 5; ++i) if (p[i].get() != (at[i] < 0 ? nullptr : objs[at[i]].raw)) { rep.fail("pointer", log); bad = true; }
    };
    int steps = 5 + r.below(40);
    for (int s = 0; s < steps && !bad; ++s)
    {
      int i = r.below(5), j = r.below(5);
      auto drop = [&](int k) { if (k >= 0) --objs[k].count; };
      switch (r.below(10))
      {
        case 0: case 1:
        {
          Obj* o = r.chance(40) ? new Derived : new Obj;
          WORKING_ON(o);
          if (o->read_count_racy() != 0) rep.fail("initial", "count of a new object");
          int old = at[i];
          objs.push_back({o, o->id, 1});
          at[i] = objs.size() - 1; drop(old);
          p[i] = o;
          check("new");
          break;
        }
        case 2: { int old = at[i]; at[i] = at[j]; if (at[j] >= 0) ++objs[at[j]].count; drop(old); p[i] = p[j]; check("assign"); break; }
        case 3: { if (i == j) break; int old = at[i]; at[i] = at[j]; at[j] = -1; drop(old); p[i] = std::move(p[j]); check("move"); break; }
        case 4: { drop(at[i]); at[i] = -1; p[i].reset(); check("reset"); break; }
        case 5: { p[i].swap(p[j]); std::swap(at[i], at[j]); check("swap"); break; }
        case 6:
          if (at[i] >= 0)
          {
            int n = 1 + r.below(3);
            for (int k = 0; k < n; ++k)
            {
              int prev = objs[at[i]].raw->inhibit_deletion();
              if (prev != objs[at[i]].count) rep.fail("inhibit:return", log + std::to_string(prev) + " expected " + std::to_string(objs[at[i]].count));
              ++objs[at[i]].count;
            }
            inhibited.push_back({at[i], n});
            check("inhibit");
          }
          break;
        case 7:
          if (!inhibited.empty())
          {
            auto [k, n] = inhibited.back(); inhibited.pop_back();
            bool one = r.chance(50), defer = r.chance(40);
            Obj* o = objs[k].raw;
            for (int q = 0; q < (one ? 1 : n); ++q)
            {
              int c = one ? n : 1;
              int expected = objs[k].count;
              objs[k].count -= c;
              int prev = o->allow_deletion(defer, c);
              if (prev != expected) rep.fail("allow:return", log + std::to_string(prev) + " expected " + std::to_string(expected));
              if (objs[k].count == 0 && defer)
              {
                if (dead(objs[k].id)) { rep.fail("allow:not_deferred", log); bad = true; break; }
                o->mark_deleted();
                if (!o->is_destructed()) rep.fail("mark_deleted", log);
                delete o;
              }
            }
            check(defer ? "defer" : "allow");
          }
          break;
        case 8:
          if (at[i] >= 0 && at[j] >= 0)
          {
            *p[i] = *p[j];
            check("contents");
            int old = at[i];
            Obj* o = new Obj(*p[j]);
            if (o->read_count_racy() != 0) rep.fail("copy:count", log);
            intrusive_ptr_add_ref(o);
            objs.push_back({o, o->id, 1});
            check("copy");
            if (r.chance(60)) { at[i] = objs.size() - 1; ++objs[at[i]].count; drop(old); p[i] = o; check("new"); }
            --objs.back().count;
            intrusive_ptr_release(o);
            check("release");
          }
          break;
        case 9:
          if (at[i] >= 0) { Ptr q(p[i].get()); ++objs[at[i]].count; check("raw"); --objs[at[i]].count; }
          break;
      }
      { std::lock_guard<std::mutex> l(rep.m); rep.evaluations++; }
    }
    if (bad) return;
    for (auto [k, n] : inhibited) { objs[k].count -= n; objs[k].raw->allow_deletion(false, n); }
    for (int i = 0; i < 5; ++i) if (at[i] >= 0) { --objs[at[i]].count; p[i].reset(); at[i] = -1; }
    check("end");
    for (auto& o : objs) if (dead(o.id) != 1) rep.fail("leak", log);
    rep.distinct.insert(std::hash<std::string>()(log));
  }
}

static void racing(Report& rep, Rng& r, int rounds)
{
  long last[TMAX] = {};
  for (int round = 0; round < rounds; ++round)
  {
    int T = 2 + r.below(TMAX - 1), K = 1 + r.below(6);
    long sums[8] = {}, ids[8];
    std::vector<std::atomic<int>> deferred(K);
    std::vector<Ptr> main_ptr;
    for (int k = 0; k < K; ++k) { main_ptr.push_back(r.chance(50) ? new Obj(&sums[k]) : new Derived(&sums[k])); ids[k] = main_ptr[k]->id; }
    std::vector<std::vector<Ptr>> own(T, main_ptr);
    std::vector<std::vector<int>> held(T, std::vector<int>(K, 0));
    for (int t = 0; t < T; ++t) for (int k = 0; k < K; ++k) if (r.chance(50))
    {
      // The thread gets an inhibition instead of a pointer.
      int n = 1 + r.below(3);
      for (int q = 0; q < n; ++q) main_ptr[k]->inhibit_deletion();
      held[t][k] = n;
    }
    std::atomic<int> ready{0};
    std::atomic<int> order{0};
    int who[8][TMAX];
    std::vector<std::thread> th;
    std::vector<Obj*> raw;
    for (auto& p : main_ptr) raw.push_back(p.get());
    for (int t = 0; t < T; ++t)
    {
      uint64_t seed = r.next();
      th.emplace_back([&, t, seed] {
        Rng q(seed);
        std::vector<Ptr> mine = std::move(own[t]);
        ++ready;
        while (ready < T) std::this_thread::yield();
        for (int k = 0; k < K; ++k)
        {
          int k2 = k;
          WORKING_ON(raw[k2]);
          int n = q.below(4);
          for (int s = 0; s < n; ++s) { Ptr x(mine[k2]); Ptr y; y = x; x->slot[t]++; raw[k2]->inhibit_deletion(); y->allow_deletion(); mine[k2]->slot[t]--; }
          if (q.chance(20)) std::this_thread::yield();
          raw[k2]->slot[t] = 1 + t;                     // The destructor must see this.
          if (held[t][k2])
          {
            mine[k2].reset();
            raw[k2]->slot[t] = 1 + t;
            bool defer = q.chance(40);
            int h = held[t][k2];
            if (q.chance(50))
            {
              int prev = raw[k2]->allow_deletion(defer, h);
              if (defer && prev == h) { deferred[k2]++; delete raw[k2]; }
            }
            else
              for (int z = 0; z < h; ++z)
              {
                if (z == h - 1) raw[k2]->slot[t] = 1 + t;
                int prev = raw[k2]->allow_deletion(defer);
                if (defer && prev == 1) { deferred[k2]++; delete raw[k2]; }
              }
          }
          else
            mine[k2].reset();
          who[k2][t] = order++;
        }
      });
    }
    // The references of this thread.
    if (r.chance(50)) for (auto& p : main_ptr) { WORKING_ON(p.get()); p.reset(); }
    for (auto& t : th) t.join();
    for (auto& p : main_ptr) { WORKING_ON(p.get()); p.reset(); }
    for (int k = 0; k < K; ++k)
    {
      { std::lock_guard<std::mutex> l(rep.m); rep.evaluations++; }
      if (dead(ids[k]) != 1) rep.fail("race:destroyed", "destroyed " + std::to_string(dead(ids[k])) + " times");
      if (deferred[k] > 1) rep.fail("race:deferred", std::to_string(deferred[k]) + " threads were told to delete it");
      if (dead(ids[k]) == 1 && sums[k] != T * (T + 1) / 2) rep.fail("race:visibility", "the destructor saw " + std::to_string(sums[k]) + " of " + std::to_string(T * (T + 1) / 2));
      int l = std::max_element(who[k], who[k] + T) - who[k];
      last[l]++;
      std::string s;
      for (int t = 0; t < T; ++t) s += std::to_string(std::count_if(who[k], who[k] + T, [&](int x) { return x < who[k][t]; }));
      rep.distinct.insert(std::hash<std::string>()(s));
    }
  }
  int n = 0;
  for (long l : last) n += l > 0;
  rep.stat("threads_that_were_last", n);
  rep.stat("raced_objects", rounds);
}

int main(int, char** argv)
{
  Rng r(atoll(argv[1]));
  Report& rep = report;
  int n = atoi(argv[2]);
  single(rep, r, n);
  racing(rep, r, n / 2);
  return rep.done();
}
