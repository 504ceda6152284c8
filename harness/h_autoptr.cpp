// L01: lockable_auto_ptr against an ownership model.
#include "vk.h"
#include <libcwd/debug.h>
#include <libcwd/lockable_auto_ptr.h>
#include <memory>
using namespace vk;

static long g_next = 0;
static std::map<long, int> g_dead;           // id -> times destroyed
static std::set<void*> g_arrays_live;
static long g_news = 0;

struct Obj
{
  long id;
  int canary = 0x5a5a;
  Obj() : id(++g_next) { ++g_news; }
  virtual ~Obj() { canary = 0; g_dead[id]++; }
};
struct Derived : Obj { char pad[32] = {}; };

template<bool A> struct Model
{
  using Ptr = libcwd::lockable_auto_ptr<Obj, A>;
  struct S { std::unique_ptr<Ptr> p; long obj = 0; bool owner = false, locked = false; };   // obj: index in objs + 1
  struct O { Obj* raw; std::vector<long> ids; bool deleted = false; bool released = false; };
  std::vector<S> v;
  std::vector<O> objs;
  std::string log;
  Rng& r;
  Model(Rng& r) : v(5), r(r) { }

  Obj* make(long& idx)
  {
    O o;
    int n = A ? 1 + (int)r.below(4) : 1;
    o.raw = A ? new Obj[n] : r.chance(30) ? new Derived : new Obj;
    for (int i = 0; i < n; ++i) o.ids.push_back(o.raw[i].id);
    objs.push_back(o);
    idx = objs.size();
    return o.raw;
  }
  void del(long idx) { objs[idx - 1].deleted = true; }
  void check()
  {
    for (size_t i = 0; i < v.size(); ++i)
    {
      if (!v[i].p) continue;
      if (v[i].p->is_owner() != v[i].owner) report.fail("ownership", log + " : pointer " + std::to_string(i) + " is_owner()=" + std::to_string(v[i].p->is_owner()));
      Obj* want = v[i].obj ? objs[v[i].obj - 1].raw : nullptr;
      if (v[i].p->get() != want || v[i].p->operator->() != want) report.fail("get", log);
      if (v[i].owner && v[i].p->strict_owner() != v[i].locked) report.fail("strict_owner", log);
      if (v[i].owner && want && (&**v[i].p)->canary != 0x5a5a) report.fail("owned object destroyed", log);
    }
    for (auto& o : objs)
      for (long id : o.ids)
      {
        int d = g_dead.count(id) ? g_dead[id] : 0;
        if (d != (o.deleted ? 1 : 0))
          report.fail(d > 1 ? "deleted twice" : d ? "deleted early" : "not deleted", log + " : object deleted " + std::to_string(d) + " times");
      }
  }
  void step()
  {
    size_t i = r.below(v.size()), j = r.below(v.size());
    auto& a = v[i]; auto& b = v[j];
    switch (r.below(10))
    {
      case 0: case 1:
        if (a.p) return;
        { long idx = 0; Obj* o = r.chance(90) ? make(idx) : nullptr;
          log += " " + std::to_string(i) + "=new" + (o ? "" : "(0)");
          a.p.reset(new Ptr(o)); a.obj = idx; a.owner = o; a.locked = false; }
        break;
      case 2: case 3:
        if (a.p || !b.p) return;
        log += " " + std::to_string(i) + "=copy(" + std::to_string(j) + ")";
        a.p.reset(new Ptr(*b.p)); a.obj = b.obj; a.owner = b.owner && !b.locked; a.locked = false;
        if (!b.locked) b.owner = false;
        break;
      case 4: case 5:
        if (!a.p || !b.p) return;
        // Assigning from a pointer to the very object one owns oneself (without owning it there) would, as with
        // auto_ptr, delete what is then pointed to; legal, and the model follows.
        log += " " + std::to_string(i) + ":=" + std::to_string(j);
        *a.p = *b.p;
        if (i != j)
        {
          if (a.owner) del(a.obj);
          a.obj = b.obj;
          if (b.locked) a.owner = false; else { a.owner = b.owner; b.owner = false; }
        }
        break;
      case 6:
        if (!a.p) return;
        log += " reset(" + std::to_string(i) + ")";
        a.p->reset();
        if (a.owner) del(a.obj);
        a.owner = false; a.obj = 0;
        break;
      case 7:
        if (!a.p || !a.owner) return;
        if (r.chance(60)) { log += " lock(" + std::to_string(i) + ")"; a.p->lock(); a.locked = true; }
        else
        {
          log += " release(" + std::to_string(i) + ")";
          Obj* o = a.p->release();
          if (o != objs[a.obj - 1].raw) report.fail("release value", log);
          a.owner = false;
          objs[a.obj - 1].released = true;
        }
        break;
      case 8:
        if (!a.p) return;
        log += " unlock(" + std::to_string(i) + ")"; a.p->unlock(); a.locked = false;
        break;
      case 9:
        if (!a.p) return;
        log += " ~" + std::to_string(i);
        a.p.reset();
        if (a.owner) del(a.obj);
        a = S();
        break;
    }
    check();
  }
  void end()
  {
    for (auto& s : v) { if (!s.p) continue; s.p.reset(); if (s.owner) del(s.obj); s = S(); }
    check();
    for (auto& o : objs)
      if (!o.deleted)
      {
        if (!o.released) report.fail("never deleted", log);
        if (A) delete[] o.raw; else delete o.raw;
      }
    for (auto& o : objs) for (long id : o.ids) g_dead.erase(id);
  }
};

struct Base2 { int b2 = 7; virtual ~Base2() { } };
struct Multi : Base2, Obj { };   // Conversion to Obj changes the address.

int main(int argc, char** argv)
{
  Rng r(arg_u64(argc, argv, 1, 1));
  uint64_t cases = arg_u64(argc, argv, 2, 1000);
  for (uint64_t c = 0; c < cases; ++c)
  {
    std::string log;
    int n = 5 + r.below(r.chance(10) ? 200 : 25);
    if (r.chance(60)) { Model<false> m(r); for (int i = 0; i < n; ++i) m.step(); m.end(); log = m.log; }
    else { Model<true> m(r); for (int i = 0; i < n; ++i) m.step(); m.end(); log = m.log + "[]"; }
    report.eval(log, log.size() > 20);
    report.stat("operations", n);
    if (c % (cases / 3 + 1) == 3) report.sample(log);
    // Converting copy and assignment.
    {
      using D = libcwd::lockable_auto_ptr<Multi>; using B = libcwd::lockable_auto_ptr<Obj>;
      long id; bool lock = r.chance(40), assign = r.chance(50);
      {
        Multi* raw = new Multi; id = raw->id;
        std::unique_ptr<D> d(new D(raw));
        if (lock) d->lock();
        {
          long old = 0;
          std::unique_ptr<B> b;
          if (assign) { Obj* o = r.chance(50) ? new Obj : nullptr; old = o ? o->id : 0; b.reset(new B(o)); *b = *d; }
          else b.reset(new B(*d));
          if (old && g_dead[old] != 1) report.fail("converting assignment: old object", std::to_string(g_dead[old]));
          if (b->get() != static_cast<Obj*>(raw)) report.fail("converting copy: get", "");
          if (b->is_owner() == lock || d->is_owner() != lock) report.fail("converting copy: ownership", lock ? "locked" : "unlocked");
          bool bfirst = r.chance(50);
          if (bfirst) b.reset(); else d.reset();
          bool dead = g_dead.count(id) && g_dead[id];
          if (dead != (bfirst ? !lock : lock)) report.fail("converting copy: deleted at the wrong time", "");
        }
      }
      if (g_dead[id] != 1) report.fail("converting copy: deleted " + std::to_string(g_dead[id]) + " times", "");
      g_dead.erase(id);
    }
    g_dead.clear();
  }
  return report.done();
}
