"""Random projects of libraries and an application that follow doc/reference-manual/custom-debug.h.md: every library has a namespace of its own for its debug channels.

project(seed) gives the files and the statements, each with the channel that the documented lookup of dc::name finds.
"""
import random

BUILTIN = ['notice', 'debug', 'warning', 'system']
LABEL = {'notice': 'NOTICE', 'debug': 'DEBUG', 'warning': 'WARNING', 'system': 'SYSTEM', 'elfutils': 'ELFUTILS'}
POOL = ['warp', 'foobar', 'io', 'net', 'decoder', 'always_on', 'dc', 'channels', 'libcwd', 'start', 'off', 'label', 'mask', 'notice', 'debug', 'system', 'on', 'Channel1']
# Namespaces in which a library could have its code and its channels.
SPACES = ['lib%d', 'lib%d', 'lib%d::core', 'lib%d::debug', 'lib%d::detail', 'proj%d::libs::x', 'lib%d::libcwd_x', 'l%d::std_ext']


class Space:
    """A namespace dc, with its declarations and using-directives."""
    def __init__(self, name):
        self.name, self.own, self.uses = name, {}, []

    def lookup(self, n):
        """[namespace.qual]: the set of declarations, with their channel, that dc::n finds."""
        return self.search(n, set())

    def search(self, n, seen):
        if id(self) in seen:
            return set()
        seen.add(id(self))
        if n in self.own:
            return {(self.own[n], id(self))}    # Two references to the same channel are different entities.
        r = set()
        for u in self.uses:
            r |= u.search(n, seen)
        return r

    def names(self):
        r, todo, seen = set(), [self], []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            r |= set(x.own)
            todo += x.uses
        return sorted(n for n in r if len(self.lookup(n)) == 1)


def fn(name):
    return name.replace('::', '_')


class Project:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.files, self.units, self.calls = {}, [], []
        self.builtin = Space('libcwd::channels::dc')
        self.builtin.own = {n: LABEL[n] for n in BUILTIN}
        self.channels = {}          # label: the expression of its definition
        self.libs = []
        self.serial = 0
        for i in range(r.randrange(1, 5)):
            self.library(i)
        self.application()

    def stmt(self, space, do, dout, obj_name):
        """One statement with its expectation."""
        r = self.r
        names = space.names()
        n = r.choice(names)
        self.serial += 1
        text = 'text %d' % self.serial
        label = next(iter(space.lookup(n)))[0]
        cf = r.choice(['', '', '', '|nolabel_cf', '|blank_label_cf'])
        args = r.choice(['"%s"' % text, '"text " << %d' % self.serial, '"text" << \' \' << std::pair<int,int>(%d,0).first' % self.serial])
        second = None
        if r.random() < .2:
            second = r.choice(names)
        form = 'dc::%s%s%s' % (n, '|dc::%s' % second if second else '', cf)
        on = [label] + ([next(iter(space.lookup(second)))[0]] if second else [])
        return '%s(%s, %s);' % (dout, form, args), (obj_name, on, cf, text)

    def function(self, space, do, dout, how, ns, k, head):
        """Code of a function of a few statements; its expectations are executed in order when it is called."""
        r = self.r
        body, exp = [], []
        for _ in range(r.randrange(1, 4)):
            s, e = self.stmt(space, do, dout, 'cw')
            if r.random() < .3:
                s = 'if (x == 0) %s else { }' % s if r.random() < .5 else 'for (int i = 0; i < 1; ++i) { %s }' % s
            body.append(s)
            exp.append(e)
        return body, exp

    def library(self, i):
        r = self.r
        ns = r.choice(SPACES) % i
        space = Space('%s::channels::dc' % ns)
        deps = [l for l in self.libs if r.random() < .5]
        space.uses = [l['space'] for l in deps if r.random() < .7] + [self.builtin]
        refs = []
        for n in r.sample(POOL, r.randrange(1, 5)):
            label = 'L%d%s' % (i, n.upper())
            if r.random() < .25 and any(l['space'].own for l in deps):
                l = r.choice([l for l in deps if l['space'].own])
                m = r.choice(sorted(l['space'].own))
                space.own[n] = l['space'].own[m]
                refs.append((n, l['space'].name + '::' + m))
            else:
                space.own[n] = label
                self.channels[label] = (space.name, n)
        U = 'Lib%d' % i
        d = 'lib%d/' % i
        defs = sorted((n, l) for n, l in space.own.items() if self.channels.get(l) == (space.name, n))
        # The header with the channels, as documented.
        h = ['#ifndef LIB%d_DEBUG_H' % i, '#define LIB%d_DEBUG_H' % i, '#ifdef CWDEBUG', '#include <libcwd/libraries_debug.h>']
        h += ['#endif'] + ['#include <lib%d/debug.h>' % l['i'] for l in deps] + ['#ifdef CWDEBUG']
        h += ['namespace %s {' % space.name]
        h += ['using namespace ::%s;' % u.name for u in space.uses]
        h += ['extern ::libcwd::Channel %s;' % n for n, _ in defs]
        h += ['static ::libcwd::Channel& %s(::%s);' % (n, e) for n, e in refs]
        h += ['}']
        for m, a in (('Debug(...)', 'LibcwDebug(%s, __VA_ARGS__)'), ('Dout(cntrl, ...)', 'LibcwDout(%s, ::libcwd::libcw_do, cntrl, __VA_ARGS__)'),
                     ('DoutFatal(cntrl, ...)', 'LibcwDoutFatal(%s, ::libcwd::libcw_do, cntrl, __VA_ARGS__)'),
                     ('ForAllDebugChannels(...)', 'LibcwdForAllDebugChannels(%s, __VA_ARGS__)'), ('ForAllDebugObjects(...)', 'LibcwdForAllDebugObjects(%s, __VA_ARGS__)')):
            h.append('#define %s%s %s' % (U, m, a % (ns + '::channels')))
        h += ['#if !defined(Debug) && !defined(LIB_INTERNAL)', '#error "debug.h" must be included first', '#endif', '#else']
        for m in ('Debug(...)', 'Dout(cntrl, ...)', 'ForAllDebugChannels(...)', 'ForAllDebugObjects(...)'):
            h.append('#define %s%s do { } while(0)' % (U, m))
        h += ['#define %sDoutFatal(cntrl, ...) do { ::std::cerr << __VA_ARGS__ << ::std::endl; ::std::exit(EXIT_FAILURE); } while(1)' % U, '#endif', '#endif']
        self.files[d + 'debug.h'] = '\n'.join(h) + '\n'
        # The internal debug.h.
        h = ['#ifndef DEBUG_H', '#define DEBUG_H', '#ifndef CWDEBUG', '#include <iostream>', '#include <cstdlib>', '#include "nodebug.h"', '#endif',
             '#define LIB_INTERNAL', '#include <lib%d/debug.h>' % i, '#define LIBCWD_DEBUG_CHANNELS %s::channels' % ns, '#ifdef CWDEBUG', '#include <libcwd/debug.h>', '#endif', '#endif']
        self.files['internal%d/debug.h' % i] = '\n'.join(h) + '\n'
        # The public header: functions that are compiled as a part of every user.
        pub = ['#pragma once', '#include <lib%d/debug.h>' % i, '#include <iostream>', '#include <utility>', 'namespace %s {' % ns]
        decl, src, fns = [], [], []
        code_ns = ns
        for k in range(r.randrange(1, 4)):
            where = r.choice(['inline', 'template', 'member', 'source', 'source', 'nested'])
            name = 'f%d' % k
            dout = U + 'Dout' if where in ('inline', 'template', 'member') else r.choice(['Dout', U + 'Dout'])
            body, exp = self.function(space, 'cw', dout, where, ns, k, None)
            b = ' '.join(body)
            if r.random() < .3:
                b += ' { int n = 0; %sForAllDebugChannels(if (debugChannel.get_label()[0] == \'L\') ++n); std::cout << "N " << n << std::endl; }' % U
                exp.append(('N',))
            call = '%s::%s(0)' % (ns, name)
            if where == 'inline':
                pub.append('inline void %s(int x) { %s }' % (name, b))
            elif where == 'template':
                pub.append('template<typename T> void %s(T x) { %s }' % (name, b))
            elif where == 'member':
                pub.append('struct S%s { int label = 0, mask = 0, on = 0; void run(int x) const { %s } };' % (name, b))
                call = '%s::S%s().run(0)' % (ns, name)
            elif where == 'source':
                pub.append('void %s(int x);' % name)
                src.append('void %s(int x) { %s }' % (name, b))
            else:
                pub.append('namespace inner { void %s(int x); }' % name)
                src.append('namespace inner { void %s(int x) { %s } }' % (name, b))
                call = '%s::inner::%s(0)' % (ns, name)
            fns.append((call, exp))
        pub.append('}')
        self.files[d + 'api.h'] = '\n'.join(pub) + '\n'
        cc = ['#include "debug.h"', '#ifdef CWDEBUG', 'namespace LIBCWD_DEBUG_CHANNELS::dc {'] + ['::libcwd::Channel %s("%s");' % x for x in defs] + ['}', '#endif', '#include <lib%d/api.h>' % i]
        for l in deps:
            if r.random() < .5:
                cc.append('#include <lib%d/api.h>' % l['i'])
        cc += ['namespace %s {' % ns] + src + ['}']
        # A function of the library that calls those of its dependencies.
        used = [c for l in deps if '#include <lib%d/api.h>' % l['i'] in cc for c in l['fns']]
        if used:
            c = r.choice(used)
            cc.append('namespace %s { void forward() { ::%s; } }' % (ns, c[0]))
            self.files[d + 'api.h'] += 'namespace %s { void forward(); }\n' % ns
            fns.append(('%s::forward()' % ns, c[1]))
        self.files['src/lib%d.cc' % i] = '\n'.join(cc) + '\n'
        self.units.append(('src/lib%d.cc' % i, 'internal%d' % i))
        self.libs.append(dict(i=i, ns=ns, space=space, fns=fns, U=U))

    def application(self):
        r = self.r
        kind = r.choice(['default', 'namespace', 'namespace', 'channels', 'channels'])
        ns = {'default': 'debug', 'namespace': r.choice(['app::debug', 'mydebug', 'app']), 'channels': r.choice(['application', 'application::d'])}[kind]
        chan = ns + '::' + ('channels' if kind != 'channels' else r.choice(['channels', 'my_channels']))
        space = Space(chan + '::dc')
        space.uses = [self.builtin] + [l['space'] for l in self.libs if r.random() < .8]
        h = ['#pragma once']
        if kind == 'namespace':
            h.append('#define NAMESPACE_DEBUG ' + ns)
            if r.random() < .2:
                chan = ns + '::chans'
                space.name = chan + '::dc'
                h.append('#define NAMESPACE_CHANNELS chans')
        elif kind == 'channels':
            h.append('#define LIBCWD_DEBUG_CHANNELS ' + chan)
        h += ['#ifdef CWDEBUG', '#include <libcwd/debug.h>', '#else', '#include <iostream>', '#include <cstdlib>', '#include "nodebug.h"', '#endif']
        h += ['#include <lib%d/debug.h>' % l['i'] for l in self.libs]
        defs, refs = [], []
        for n in r.sample(POOL, r.randrange(0, 4)):
            label = 'LA' + n.upper()
            space.own[n] = label
            self.channels[label] = (space.name, n)
            defs.append((n, label))
        # Collisions are resolved with references.
        amb = set()
        for l in self.libs:
            for n in l['space'].own:
                if len(space.lookup(n)) > 1:
                    amb.add(n)
        for n in sorted(amb):
            for j, l in enumerate(x for x in self.libs if n in x['space'].own):
                name = n if j == 0 else '%s%d' % (n, j)
                if name not in space.own:
                    space.own[name] = l['space'].own[n]
                    refs.append((name, l['space'].name + '::' + n))
        h += ['#ifdef CWDEBUG', 'namespace %s {' % space.name] + ['using namespace ::%s;' % u.name for u in space.uses]
        h += ['extern ::libcwd::Channel %s;' % n for n, _ in defs] + ['static ::libcwd::Channel& %s(::%s);' % x for x in refs] + ['}']
        h += ['extern libcwd::DebugObject my_do;', '#define MyDout(cntrl, ...) LibcwDout(LIBCWD_DEBUG_CHANNELS, my_do, cntrl, __VA_ARGS__)',
              '#define MyDoutFatal(cntrl, ...) LibcwDoutFatal(LIBCWD_DEBUG_CHANNELS, my_do, cntrl, __VA_ARGS__)', '#else',
              '#define MyDout(a, ...)', '#define MyDoutFatal(a, ...) LibcwDoutFatal(std,, a, __VA_ARGS__)', '#endif']
        self.files['app/debug.h'] = '\n'.join(h) + '\n'
        self.labels = dict(self.channels)
        on = {l: r.random() < .65 for l in list(self.channels) + list(LABEL.values())[:4]}
        on0 = dict(on)
        obj_on = {'cw': r.random() < .9, 'my': r.random() < .8}
        lines = []
        exp = []

        def add(e):
            if e[0] == 'N':
                exp.append('N %d' % len(self.channels))
                return
            obj, labels, cf, text = e
            if not obj_on[obj] or not any(on[l] for l in labels):
                return
            first = next(l for l in labels if on[l])
            exp.append((obj, first, cf, text))
        enclosing = r.choice(['', '', 'app_code', 'app_code::detail', 'dcx', 'application::code', 'app::impl'] + ['wrap::%s' % (l['ns']) for l in self.libs] + ['wrap::' + chan])
        for _ in range(r.randrange(8, 30)):
            x = r.random()
            if x < .35 and self.libs:
                l = r.choice(self.libs)
                call, es = r.choice(l['fns'])
                lines.append('::%s;' % call)
                for e in es:
                    add(e)
            elif x < .45:
                # The macro of a library, in the source of the application.
                l = r.choice(self.libs)
                s, e = self.stmt(l['space'], 'cw', l['U'] + 'Dout', 'cw')
                lines.append(s)
                add(e)
            elif x < .85:
                my = r.random() < .3
                s, e = self.stmt(space, None, 'MyDout' if my else 'Dout', 'my' if my else 'cw')
                lines.append(s)
                add(e)
            elif x < .92:
                lines.append('{ int n = 0; ForAllDebugChannels(if (debugChannel.get_label()[0] == \'L\') ++n); std::cout << "N " << n << std::endl; }')
                exp.append('N %d' % len(self.channels))
            else:
                n = r.choice(space.names())
                label = next(iter(space.lookup(n)))[0]
                if r.random() < .5:
                    lines.append('Debug(if (dc::%s.is_on()) dc::%s.off());' % (n, n))
                    on[label] = False
                else:
                    lines.append('Debug(if (!dc::%s.is_on()) dc::%s.on());' % (n, n))
                    on[label] = True
        end = r.choice([None, None] + [l['U'] for l in self.libs] + ['', 'My'])
        if end is not None:
            lines.append('%sDoutFatal(dc::fatal, "the end");' % end)
        main = ['#include "debug.h"'] + ['#include <lib%d/api.h>' % l['i'] for l in self.libs] + ['#include <iostream>', '#include <utility>']
        main += ['#ifdef CWDEBUG', 'namespace LIBCWD_DEBUG_CHANNELS::dc {'] + ['::libcwd::Channel %s("%s");' % x for x in defs] + ['}', 'libcwd::DebugObject my_do;', '#endif']
        main += ['namespace %s {' % enclosing] * bool(enclosing) + ['void run(int x)', '{'] + ['  ' + l for l in lines] + ['}'] + ['}'] * bool(enclosing)
        main += ['int main()', '{', '  Debug(main_reached());', '#ifdef CWDEBUG']
        where = dict(self.channels)
        where.update({l: (self.builtin.name, n) for n, l in LABEL.items() if n in BUILTIN})
        for l, (sp, n) in sorted(where.items()):
            main.append('  if (%s::%s::%s.is_on()) ::%s::%s.%s();' % ('!' if on0[l] else '', sp, n, sp, n, 'on' if on0[l] else 'off'))
        main += ['  libcwd::libcw_do.set_ostream(&std::cout);', '  my_do.set_ostream(&std::cout);', '  my_do.margin().assign("MY>", 3);']
        main += ['  libcwd::libcw_do.on();'] * obj_on['cw'] + ['  my_do.on();'] * obj_on['my']
        main += ['#endif', '  %s::run(0);' % enclosing, '  std::cout << "END" << std::endl;', '}']
        self.files['app/main.cc'] = '\n'.join(main) + '\n'
        self.units.append(('app/main.cc', 'app'))
        self.exp, self.end, self.obj_on = exp, end, obj_on
        self.width = max(len(l) for l in list(self.channels) + list(LABEL.values()) + ['COREDUMP', 'FATAL', '<none>'][:2])
