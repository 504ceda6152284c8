"""Random C++ types, written with alias templates so that no declarator syntax is needed."""

HEADER = r'''
#include "sys.h"
#include "debug.h"
#include <libcwd/type_info.h>
#include <string>
#include <vector>
#include <map>
#include <type_traits>
#include "vk.h"
template<class T> using Ptr = T*;
template<class T> using LRef = T&;
template<class T> using RRef = T&&;
template<class T> using Const = T const;
template<class T> using Volatile = T volatile;
template<class T, int N> using Arr = T[N];
template<class R, class... A> using Fn = R(A...);
template<class T, class C> using Mem = T C::*;
template<class C, class R, class... A> using MFn = R (C::*)(A...);
template<class C, class R, class... A> using CMFn = R (C::*)(A...) const;
struct Incomplete;
struct S { char a[3]; };
struct S_ { short a[3]; };
struct SS { int a[5]; };
struct FooS { char a[7]; struct In_S_ { char b[9]; }; enum ES { z }; template<class T> struct TS { T t[2]; }; };
struct C0_ { virtual ~C0_() { } char x; };
struct K { long v[3]; };
struct E_ { };
union US_ { char c; double d; };
enum Color_ { red };
enum class Strict : unsigned char { s };
namespace nS { struct S0_ { char x[11]; }; struct KS { int i; }; namespace in_ { struct VKS { char y[13]; }; } template<class A, class B> struct PairS { A const* a; B const* b; }; }
template<class T> struct Tm { char m[17]; };
template<class A, class B = int, class D = A> struct Tm3_S { char m[19]; };
template<int N> struct Num_ { char m[N + 1]; };
template<bool B, char X> struct BX { char m[23]; };
template<template<class> class TT> struct TTS { TT<int> t; };
template<class T> struct Outer { template<class U> struct InnerS { char y[21]; char z; }; };
struct Row
{
  char const* what;
  libcwd::TypeInfo const& (*get)();
  size_t size, ref;
  std::string (*name)();
  std::string type;                                // The name of the type T that is deduced or given.
  bool object;
};
template<class U> std::string arr()
{
  if constexpr (std::is_array_v<U>)
    return "A" + std::to_string(std::extent_v<U>) + "_" + arr<std::remove_extent_t<U>>();
  else
    return std::string(std::is_volatile_v<U> ? "V" : "") + (std::is_const_v<U> ? "K" : "") + typeid(std::remove_cv_t<U>).name();
}
template<class T> std::string exact_name()
{
  return (std::is_lvalue_reference_v<T> ? "R" : std::is_rvalue_reference_v<T> ? "O" : "") + arr<std::remove_reference_t<T>>();
}
template<class T> std::string plain_name() { return typeid(T).name(); }
template<class T, class = void> struct RefSize { static constexpr size_t value = 0; };
template<class T> struct RefSize<T, std::enable_if_t<std::is_pointer_v<T> && std::is_object_v<std::remove_pointer_t<T>> && (sizeof(std::remove_pointer_t<T>) > 0)>>
{ static constexpr size_t value = sizeof(std::remove_pointer_t<T>); };
template<class T> libcwd::TypeInfo const& get_exact() { return libcwd::type_info_of<T>(); }
alignas(64) inline char storage[65536];
template<class T> libcwd::TypeInfo const& get_object()
{
  return libcwd::type_info_of(reinterpret_cast<std::remove_reference_t<T>&>(storage));
}
template<class T> Row exact_row(char const* what) { return { what, &get_exact<T>, sizeof(T), RefSize<T>::value, &exact_name<T>, typeid(Tm<T>).name(), false }; }
template<class T> Row object_row(char const* what)
{
  // What is deduced for T const&.
  using D = std::remove_const_t<std::remove_reference_t<T>>;
  return { what, &get_object<T>, sizeof(T), RefSize<std::remove_cv_t<D>>::value, &plain_name<T>, typeid(Tm<D>).name(), true };
}
struct Seen { libcwd::TypeInfo const* t; char const* name; char const* dem; size_t size, ref; };
inline Seen look(Row const& r) { libcwd::TypeInfo const& t = r.get(); return { &t, t.name(), t.demangled_name(), t.size(), t.ref_size() }; }
'''

BUILTIN = 'bool char,signed char,unsigned char,short,unsigned short,int,unsigned,long,unsigned long,long long,unsigned long long,' \
          'wchar_t,float,double,long double,__int128'.replace('bool char', 'bool,char').split(',')
CLASSES = ['S', 'S_', 'SS', 'FooS', 'C0_', 'K', 'E_', 'US_', 'nS::S0_', 'nS::KS', 'nS::in_::VKS', 'FooS::In_S_']
ENUMS = ['Color_', 'Strict', 'FooS::ES']
ODD = ['std::nullptr_t', 'char16_t', 'char8_t']        # grammar that the demangler leaves alone


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.odd = False

    def cls(self, d):
        r = self.rng
        k = r.randrange(10 if d > 0 else 4)
        if k < 4:
            return r.choice(CLASSES)
        if k == 4:
            return 'Tm<%s>' % self.any(d - 1)
        if k == 5:
            return 'Tm3_S<%s>' % ', '.join(self.any(d - 1) for _ in range(r.randrange(1, 4)))
        if k == 6:
            return r.choice(['Num_<%d>' % r.choice([0, 1, 9, 10, 11, 35, 36, 37, 100]), 'BX<true, \'S\'>', 'BX<false, \'_\'>', 'TTS<Tm>', 'TTS<FooS::TS>'])
        if k == 7:
            return 'Outer<%s>::InnerS<%s>' % (self.any(d - 1), self.any(d - 1))
        if k == 8:
            return 'nS::PairS<%s, %s>' % (self.obj(d - 1), self.obj(d - 1))
        return r.choice(['std::string', 'std::vector<%s>' % r.choice(CLASSES + ['int', 'std::string']), 'std::vector<%s*>' % self.cls(0),
                         'FooS::TS<%s>' % r.choice(CLASSES), 'std::map<int, %s>' % r.choice(CLASSES)])

    def fn(self, d):
        r = self.rng
        args = [self.arg(d - 1) for _ in range(r.randrange(0, 4))]
        if args and r.random() < .5:
            args.append(r.choice(args))          # a substitution
        ret = r.choice(['void', self.arg(d - 1), args[0] if args else 'int'])
        return ret, args

    def arg(self, d):
        """A type that can be an argument or be returned; no arrays, and no top-level qualifiers."""
        r = self.rng
        k = r.randrange(8)
        if k < 2 or d <= 0:
            return r.choice([self.cls(d), r.choice(BUILTIN), r.choice(ENUMS)])
        if k < 5:
            return 'Ptr<%s>' % self.cv(d - 1)
        if k < 7:
            return 'LRef<%s>' % self.cv(d - 1)
        return self.ptr(d)

    def ptr(self, d):
        r = self.rng
        k = r.randrange(8)
        if k < 4:
            return 'Ptr<%s>' % self.cv(d - 1)
        if k == 4:
            ret, a = self.fn(d)
            return 'Ptr<Fn<%s>>' % ', '.join([ret] + a)
        if k == 5:
            return r.choice(['Ptr<void>', 'Ptr<Const<void>>', 'Ptr<Incomplete>', 'Ptr<Const<Incomplete>>', 'Ptr<Volatile<void>>'])
        if k == 6:
            return 'Mem<%s, %s>' % (self.obj(d - 1), r.choice(CLASSES))
        ret, a = self.fn(d)
        return '%s<%s>' % (r.choice(['MFn', 'CMFn']), ', '.join([r.choice(CLASSES), ret] + a))

    def obj(self, d):
        """An object type without top-level qualifiers."""
        r = self.rng
        if d <= 0:
            return r.choice(CLASSES + BUILTIN + ENUMS)
        k = r.randrange(10)
        if k < 2:
            return r.choice(BUILTIN)
        if k == 2:
            if r.random() < .15:
                self.odd = True
                return r.choice(ODD)
            return r.choice(ENUMS)
        if k < 5:
            return self.cls(d)
        if k < 9:
            return self.ptr(d)
        return 'Arr<%s, %d>' % (self.cv(d - 1), r.choice([1, 2, 10, 36]))

    def cv(self, d):
        t = self.obj(d)
        k = self.rng.randrange(6)
        return t if k < 3 else 'Const<%s>' % t if k == 3 else 'Volatile<%s>' % t if k == 4 else 'Const<Volatile<%s>>' % t

    def any(self, d):
        r = self.rng
        k = r.randrange(8)
        if k < 5:
            return self.cv(d)
        if k == 5:
            return 'LRef<%s>' % self.cv(d)
        if k == 6 and r.random() < .3:
            self.odd = True
            return 'RRef<%s>' % self.cv(d)
        return self.ptr(d)

    def top(self):
        self.odd = False
        t = self.any(self.rng.choice([1, 2, 3]))
        return t, self.odd


def rows(gen, n):
    out, seen = [], set()
    while len(out) < n:
        t, odd = gen.top()
        if t in seen or len(t) > 300:
            continue
        seen.add(t)
        out.append((t, odd))
    return out


def tu(k, types, rng, early):
    """Source of one translation unit with a row for every type and two per type: exact and as object."""
    s = ['#include "types.h"', 'namespace { namespace aS { struct AnonS_ { char q[29]; }; } struct LocS { aS::AnonS_ a[2]; };', '}',
         'std::vector<Row> rows%s() {' % k, '  std::vector<Row> r;']
    for i, (t, _) in enumerate(types):
        s.append('  { using T = %s; r.push_back(exact_row<T>("%s")); r.push_back(object_row<T>("%s (object)")); }' % (t, t, t))
    s += ['  return r;', '}']
    # Types that only this translation unit knows.
    s += ['std::vector<Row> own%s() {' % k, '  std::vector<Row> r;', '  struct Local_S { char l[31]; };']
    for t in ('aS::AnonS_', 'Const<LocS>', 'LRef<Const<LocS>>', 'Ptr<LocS>', 'Tm<aS::AnonS_>', 'Ptr<Fn<LocS, LocS>>', 'Local_S',
              'Const<Local_S>', 'Ptr<Local_S>', 'Arr<Const<LocS>, 3>'):
        s.append('  r.push_back(exact_row<%s>("%s in %s")); r.push_back(object_row<%s>("%s object in %s"));' % (t, t, k, t, t, k))
    s += ['  return r;', '}']
    # A static object whose constructor uses some of them before main.
    s += ['std::vector<std::pair<size_t, Seen>>& early%s() { static std::vector<std::pair<size_t, Seen>> v; return v; }' % k,
          'namespace { struct Early { Early() { auto r = rows%s(); size_t e[] = { %s };' % (k, ', '.join(map(str, early))),
          ' for (size_t i : e) early%s().push_back({ i, look(r[i]) }); } } early_instance; }' % k]
    return '\n'.join(s) + '\n'
