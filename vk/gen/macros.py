"""Random programs that use the debug macros in every statement context, with their transcript.

A program is a list of entries (functions), each a small imperative program over int variables whose names
are likely to collide with what a macro could declare. text(entry) gives C++; run(entry, debug) gives what it prints.
"""
import random

NAMES = ['on', 'off', 'mask', 'label', 'os', 'current', 'margin', 'marker', 'start', 'finish', 'debug_obj', 'cntrl', 'data', 'out',
         'stream', 'buf', 'flags', 'err', 'tsd', 'channel_set', 'debug_object', 'dc_namespace', 'debugChannels', 'enabled', 'state',
         'len', 'i', 'n', 'x', 's', 'lock', 'mutex', 'result', 'ret', 'tmp', 'fatal', 'indentation', 'm_indent', 'color_on', 'next']
CHANNELS = ['alpha', 'beta', 'gamma']
LABEL = {'alpha': 'ALPHA', 'beta': 'BETA', 'gamma': 'GAMMA'}

HEADER = r'''
#ifdef CWDEBUG
#include "sys.h"
#include "debug.h"
#else
#include <iostream>
#include <cstdlib>
#include "nodebug.h"
#endif
#include <iostream>
#include <vector>
#include <utility>
#include <string>
#include <cstring>
#ifdef CWDEBUG
NAMESPACE_DEBUG_CHANNELS_START
extern Channel alpha, beta, gamma;
NAMESPACE_DEBUG_CHANNELS_END
// As documented for the headers of a library.
namespace libexample::channels::dc { using namespace libcwd::channels::dc; extern libcwd::Channel warp; }
#define LibexampleDebug(...) LibcwDebug(libexample::channels, __VA_ARGS__)
#define LibexampleDout(cntrl, ...) LibcwDout(libexample::channels, libcwd::libcw_do, cntrl, __VA_ARGS__)
#else
#define LibexampleDebug(...) do { } while(0)
#define LibexampleDout(cntrl, ...) do { } while(0)
#endif
// What the program does by itself.
inline int P(char const* tag, int v) { std::cout << "P " << tag << ' ' << v << std::endl; return v; }
struct Pair { int first, second; };
inline std::ostream& operator<<(std::ostream& o, Pair const& p) { return o << '(' << p.first << ',' << p.second << ')'; }
template<typename A, typename B> struct Tmpl { A a; B b; Tmpl(A a_, B b_) : a(a_), b(b_) { } int sum() const { return a + b; } };
template<int A, int B> constexpr int tsum() { return A + B; }
'''

MAIN = r'''
#ifdef CWDEBUG
NAMESPACE_DEBUG_CHANNELS_START
Channel alpha("ALPHA"), beta("BETA"), gamma("GAMMA");
NAMESPACE_DEBUG_CHANNELS_END
namespace libexample::channels::dc { libcwd::Channel warp("WARP"); }
#endif
int main(int argc, char* argv[])
{
  Debug(libcw_do.set_ostream(&std::cout));
  Debug(libcw_do.on());
  Debug(dc::alpha.on());
  Debug(dc::gamma.on());
  LibexampleDebug(dc::warp.on());
  int k = std::atoi(argv[1]);
  for (int e = k; e < k + (argc > 2 ? std::atoi(argv[2]) : 1); ++e)
  {
    std::cout << "E " << e << std::endl;
    entries[e]();
  }
  std::cout << "END" << std::endl;
}
'''


class TooLong(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class Fatal(Exception):
    pass


def hexl(v):
    return format(v & 0xffffffff, 'x')


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.tag = 0
        self.funcs = []     # helper functions: (name, params, body, retexpr)
        self.n = 0

    # -- expressions: ('const', v) ('var', name) ('add', a, b) ('lt', a, b) ('call', f, [args]) ('P', tag, e) ...
    def expr(self, env, depth=0, calls=True):
        r = self.rng.random()
        if depth > 2 or r < .25:
            return ('const', self.rng.randrange(0, 50))
        if r < .6:
            return ('var', self.rng.choice(env))
        if r < .72:
            return ('add', self.expr(env, depth + 1, calls), self.expr(env, depth + 1, False))
        if r < .78:
            return ('tmpl', self.expr(env, depth + 1, False), self.expr(env, depth + 1, False))
        if r < .82:
            return ('tsum', self.rng.randrange(9), self.rng.randrange(9))
        if calls and r < .88:
            return ('P', self.newtag(), self.expr(env, depth + 1, calls))
        if calls and self.funcs and r < .96:
            f = self.rng.choice(self.funcs)
            return ('call', f, [self.expr(env, depth + 2, False) for _ in f[1]])
        return ('lambda', self.rng.choice(env), self.expr(env, depth + 1, False))

    def newtag(self):
        self.tag += 1
        return 't%d' % self.tag

    def cond(self, env):
        return ('lt', self.expr(env, 1, False), ('const', self.rng.randrange(5, 60)))

    def arg(self, env):
        r = self.rng.random()
        if r < .35:
            self.tag += 1
            return ('str', self.rng.choice(['s%d', 'a,b,%d', '(x, y) %d', '{%d}', 'a; b %d', '"q%d"']) % self.tag)
        if r < .65:
            return ('int', self.expr(env))
        if r < .73:
            return ('bool', self.cond(env))
        if r < .8:
            return ('pair', self.expr(env, 1), self.expr(env, 1, False))
        if r < .86:
            return ('hex', self.expr(env, 1))
        if r < .92:
            return ('cond', self.cond(env), self.rng.choice(['yes', 'on']), self.rng.choice(['no', 'off']))
        return ('nestdout', self.dout(env, plain=True), self.expr(env, 1, False))

    def chan(self, env):
        k = self.rng.choice([1, 1, 1, 2, 3])
        chs = self.rng.sample(CHANNELS + ['notice'], k)
        cond = None
        if self.rng.random() < .2:
            cond = self.cond(env)
        flag = self.rng.choice([None, None, None, 'nolabel_cf', 'noprefix_cf'])
        return (chs, cond, flag)

    def dout(self, env, plain=False):
        if not plain and self.rng.random() < .12:
            return ('ldout', [self.arg(env) for _ in range(self.rng.randrange(1, 3))])
        return ('dout', self.chan(env), [self.arg(env) if not plain else ('int', self.expr(env, 2, False)) for _ in range(self.rng.randrange(1, 4))])

    def debugst(self, env):
        r = self.rng.random()
        if r < .5:
            return ('debug', [('sw', self.rng.choice(CHANNELS), self.rng.random() < .5)])
        if r < .75:
            v = self.rng.choice(env)
            return ('debug', [('local', 'tmp_' + str(self.n), self.expr(env, 1), v), ('sw', self.rng.choice(CHANNELS), self.rng.random() < .6)])
        return ('fac', self.rng.choice(env))

    def simple(self, env):
        r = self.rng.random()
        if r < .55:
            return self.dout(env)
        if r < .68:
            return self.debugst(env)
        if r < .84:
            return ('set', self.rng.choice(env), self.expr(env))
        return ('print', self.newtag(), self.expr(env))

    def block(self, env, depth, n=None):
        env = list(env)
        out = []
        if self.rng.random() < .15 and depth < 3:
            out.append(('entering', self.chan(env), [self.arg(env) for _ in range(self.rng.randrange(1, 3))]))
        for _ in range(n or self.rng.randrange(1, 4)):
            if self.rng.random() < .2:
                v = self.rng.choice(NAMES)
                e = self.expr([x for x in env if x != v] or env, 0) if v in env or True else None
                # The new variable must not occur in its own initialiser.
                if v in [x[1] for x in out if x[0] == 'decl'] or self.uses(e, v):
                    continue
                out.append(('decl', v, e))
                env.append(v)
            else:
                out.append(self.stmt(env, depth))
        return ('block', out)

    def uses(self, e, v):
        if not isinstance(e, (tuple, list)):
            return False
        if len(e) > 1 and e[0] in ('var', 'lambda') and e[1] == v:
            return True
        return any(self.uses(x, v) for x in e if isinstance(x, (tuple, list)) and not (x and isinstance(x, tuple) and len(x) == 4 and isinstance(x[0], str) and x[0].startswith('fn')))

    def stmt(self, env, depth, inloop=False):
        r = self.rng.random()
        if depth > 3 or r < .45:
            return self.simple(env)
        if r < .6:      # if, with statements that are not in braces.
            return ('if', self.cond(env), self.stmt(env, depth + 1), self.stmt(env, depth + 1) if self.rng.random() < .6 else None)
        if r < .7:
            return ('for', 'i%d' % depth, self.rng.randrange(1, 4), self.stmt(env + ['i%d' % depth], depth + 1))
        if r < .75:
            return ('dowhile', 'k%d' % depth, self.rng.randrange(1, 3), self.stmt(env, depth + 1))
        if r < .83:
            return ('switch', self.expr(env, 1), [self.simple(env) for _ in range(3)], [self.rng.random() < .6 for _ in range(3)])
        if r < .87:
            return ('loopif', 'j%d' % depth, self.cond(env), self.rng.choice(['break', 'continue']), self.dout(env), self.dout(env))
        if r < .9:
            return ('label', self.cond(env), self.simple(env), self.simple(env))
        if r < .94:
            return ('lamstmt', self.block(env, depth + 1))
        return self.block(env, depth)

    def function(self):
        self.n += 1
        params = self.rng.sample(NAMES, self.rng.randrange(1, 3))
        # Not g_val: the order in which the operands of a call are evaluated is not specified.
        env = params
        body = self.block(env, 2, self.rng.randrange(1, 3))
        kind = self.rng.choice(['plain', 'plain', 'template', 'member', 'static'])
        return ('fn%d' % self.n, params, body, self.expr(env, 1, False), kind)

    def entry(self):
        self.n += 1
        self.funcs = []
        for _ in range(self.rng.randrange(0, 3)):
            self.funcs.append(self.function())
        params = self.rng.sample(NAMES, 3)
        kind = self.rng.choice(['locals', 'members', 'template', 'globals', 'lambda'])
        vals = [self.rng.randrange(0, 60) for _ in params]
        body = self.block(params + ['g_val'], 0, self.rng.randrange(3, 8))
        fatal = None
        r = self.rng.random()
        if r < .5:
            # DoutFatal as one of the two statements of an if.
            fatal = (self.rng.random() < .6, self.cond(params), self.rng.choice(['fatal', 'core']), self.rng.choice([None, 'noprefix_cf']),
                     [self.arg(params) for _ in range(self.rng.randrange(1, 4))], self.dout(params))
        return dict(id=self.n, funcs=self.funcs, params=params, vals=vals, body=body, fatal=fatal, kind=kind)

    # -- C++ text
    def e(self, x):
        k = x[0]
        if k == 'const':
            return str(x[1])
        if k == 'var':
            return x[1]
        if k == 'add':
            return '(%s + %s)' % (self.e(x[1]), self.e(x[2]))
        if k == 'lt':
            return '(%s < %s)' % (self.e(x[1]), self.e(x[2]))
        if k == 'tmpl':
            return 'Tmpl<int, int>(%s, %s).sum()' % (self.e(x[1]), self.e(x[2]))
        if k == 'tsum':
            return 'tsum<%d, %d>()' % x[1:]
        if k == 'P':
            return 'P("%s", %s)' % (x[1], self.e(x[2]))
        if k == 'call':
            f = x[1]
            a = ', '.join(self.e(y) for y in x[2])
            return {'plain': '%s(%s)', 'template': '%s<>(%s)', 'member': 'S_%s().call(%s)', 'static': 'S_%s::call(%s)'}[f[4]] % (f[0], a)
        if k == 'lambda':
            return '[&, %s]() { int a = %s, b = 1; return a + b; }()' % ('dummy = 0', self.e(x[2]))
        raise ValueError(k)

    def a(self, x):
        k = x[0]
        if k == 'str':
            return '"%s"' % x[1].replace('"', '\\"')
        if k in ('int', 'bool'):
            return self.e(x[1])
        if k == 'pair':
            return 'Pair{%s, %s}' % (self.e(x[1]), self.e(x[2]))
        if k == 'hex':
            return 'std::hex << %s' % self.e(x[1])
        if k == 'cond':
            return '(%s ? "%s" : "%s")' % (self.e(x[1]), x[2], x[3])
        if k == 'nestdout':
            return '[&](int p, int q) { %s; return p + q; }(%s, 0)' % (self.s(x[1], ''), self.e(x[2]))
        raise ValueError(k)

    def c(self, ch):
        chs, cond, flag = ch
        t = '|'.join('dc::' + x for x in chs)
        if flag:
            t += '|' + flag
        if cond:
            t += '|cond_channel(%s)' % self.e(cond) if False else ''
        return t

    def args(self, a):
        # Separated by a string, so that numbers do not run together.
        return ' << "." << '.join(self.a(x) for x in a)

    def s(self, x, ind):
        """A statement, without its final semicolon where it is a macro or an expression."""
        k = x[0]
        if k == 'dout':
            return 'Dout(%s, %s)' % (self.c(x[1]), self.args(x[2]))
        if k == 'ldout':
            return 'LibexampleDout(dc::warp, %s)' % self.args(x[1])
        if k == 'debug':
            t = []
            for y in x[1]:
                if y[0] == 'sw':
                    t.append('if (%sdc::%s.is_on()) dc::%s.%s()' % ('!' if y[2] else '', y[1], y[1], 'on' if y[2] else 'off'))
                else:
                    t.append('int %s = %s, z = 0; %s += %s + z' % (y[1], self.e(y[2]), y[3], y[1]))
            return 'Debug(%s)' % '; '.join(t)
        if k == 'fac':
            return 'ForAllDebugChannels(if (debugChannel.is_on() && std::strchr("ABG", debugChannel.get_label()[0])) %s += 7)' % x[1]
        if k == 'set':
            return '%s = %s' % (x[1], self.e(x[2]))
        if k == 'print':
            return 'P("%s", %s)' % (x[1], self.e(x[2]))
        raise ValueError(k)

    def t(self, x, ind):
        """A statement with its semicolon."""
        k = x[0]
        sub = ind + '  '
        if k == 'block':
            return '%s{\n%s%s}\n' % (ind, ''.join(self.t(y, sub) for y in x[1]), ind)
        if k == 'decl':
            return '%sint %s = %s;\n' % (ind, x[1], self.e(x[2]))
        if k == 'entering':
            return '%sDoutEntering(%s, %s);\n' % (ind, self.c(x[1]), self.args(x[2]))
        if k == 'if':
            then = self.t(x[2], sub)
            # An else belongs to the nearest if: protect a dangling one by braces.
            if x[3] and self.dangling(x[2]):
                then = ind + '{\n' + then + ind + '}\n'
            r = '%sif (%s)\n%s' % (ind, self.e(x[1]), then)
            return r + ('%selse\n%s' % (ind, self.t(x[3], sub)) if x[3] else '')
        if k == 'for':
            return '%sfor (int %s = 0; %s < %d; ++%s)\n%s' % (ind, x[1], x[1], x[2], x[1], self.t(x[3], sub))
        if k == 'dowhile':
            return '%s{ int %s = 0; do\n%s%swhile (++%s < %d); }\n' % (ind, x[1], self.t(x[3], sub), ind, x[1], x[2])
        if k == 'switch':
            r = '%sswitch (%s %% 4)\n%s{\n' % (ind, self.e(x[1]), ind)
            for j, y in enumerate(x[2]):
                r += '%s%s\n%s%s' % (sub, 'case %d:' % j if j < 2 else 'default:', self.t(y, sub + '  '), sub + '  break;\n' if x[3][j] else '')
            return r + ind + '}\n'
        if k == 'loopif':
            return '%sfor (int %s = 0; %s < 3; ++%s)\n%s{\n%sif (%s) %s;\n%selse %s;\n%s%s;\n%s}\n' % (
                ind, x[1], x[1], x[1], ind, sub, self.e(('lt', ('var', x[1]), ('const', 1))), x[3] if x[3] == 'continue' else 'P("lp", 0)', sub, self.s(x[4], ''), sub,
                ('if (%s == 1) break; else %s' % (x[1], self.s(x[5], ''))) if x[3] == 'break' else self.s(x[5], ''), ind)
        if k == 'label':
            self.tag += 1
            tag = self.tag
            return '%s{\n%sif (%s) goto l%d;\n%s%sl%d:\n%s%s}\n' % (ind, sub, self.e(x[1]), tag, self.t(x[2], sub), sub, tag, self.t(x[3], sub), ind)
        if k == 'lamstmt':
            return '%s[&]()\n%s%s();\n' % (ind, self.t(x[1], ind), ind)
        return ind + self.s(x, ind) + ';\n'

    def dangling(self, x):
        """Does the statement end with an if without else (not in braces)?"""
        if x[0] == 'if':
            return x[3] is None or self.dangling(x[3])
        if x[0] == 'for':
            return self.dangling(x[3])
        return False

    def text(self, en):
        o = []
        o.append('namespace ns%d {\nstatic int g_val = 5;\n' % en['id'])
        for name, params, body, ret, kind in en['funcs']:
            ps = ', '.join('int ' + p for p in params)
            r = '%s  return %s;\n' % (self.t(body, '  '), self.e(ret))
            if kind == 'plain':
                o.append('int %s(%s)\n{\n%s}\n' % (name, ps, r))
            elif kind == 'template':
                o.append('template<typename T = int> T %s(%s)\n{\n%s}\n' % (name, ps.replace('int ', 'T '), r))
            elif kind == 'member':
                o.append('struct S_%s { int g_val2 = 0; int call(%s) const;\n};\ninline int S_%s::call(%s) const\n{\n%s}\n' % (name, ps, name, ps, r))
            else:
                o.append('struct S_%s { static int call(%s)\n{\n%s}\n};\n' % (name, ps, r))
        p, v = en['params'], en['vals']
        body = self.t(en['body'], '  ')
        if en['fatal']:
            first, cond, ch, flag, args, other = en['fatal']
            f = 'DoutFatal(dc::%s%s, %s)' % (ch, '|' + flag if flag else '', self.args(args))
            d = self.s(other, '')
            body += '  if (%s)\n    %s;\n  else\n    %s;\n' % (self.e(cond), f if first else d, d if first else f)
        body += '  P("end", %s);\n' % ' + '.join(p)
        if en['kind'] == 'locals':
            o.append('void entry()\n{\n  int %s;\n%s}\n' % (', '.join('%s = %d' % z for z in zip(p, v)), body))
        elif en['kind'] == 'template':
            o.append('template<typename T, int N> void entryt()\n{\n  T %s;\n%s}\nvoid entry() { entryt<int, 3>(); }\n' % (', '.join('%s = %d' % z for z in zip(p, v)), body))
        elif en['kind'] == 'members':
            o.append('struct M { int %s; void run();\n};\nvoid M::run()\n{\n%s}\nvoid entry() { M m; m.run(); }\n' % (', '.join('%s = %d' % z for z in zip(p, v)), body))
        elif en['kind'] == 'globals':
            o.append('%s\nvoid entry()\n{\n%s}\n' % ('\n'.join('static int %s = %d;' % z for z in zip(p, v)), body))
        else:
            o.append('auto lam = [](%s)\n{\n%s};\nvoid entry() { lam(%s); }\n' % (', '.join('auto ' + x for x in p), body, ', '.join(map(str, v))))
        o.append('} // ns%d\n' % en['id'])
        return ''.join(o)


class Run:
    """Interprets entries; the on/off state of the channels lasts over the entries."""
    def __init__(self, debug):
        self.debug = debug
        self.on = {'alpha': True, 'beta': False, 'gamma': True, 'notice': False}
        self.out = []
        self.indent = 0
        self.steps = 0

    def step(self):
        self.steps += 1
        if self.steps > 600:
            raise TooLong()

    def look(self, env, v):
        for sc in reversed(env):
            if v in sc:
                return sc
        raise KeyError(v)

    def e(self, x, env):
        k = x[0]
        if k == 'const':
            return x[1]
        if k == 'var':
            return self.look(env, x[1])[x[1]]
        if k in ('add', 'tmpl'):
            a = self.e(x[1], env)
            r = a + self.e(x[2], env)
            if abs(r) > 1 << 28:
                raise TooLong()
            return r
        if k == 'lt':
            a = self.e(x[1], env)
            return a < self.e(x[2], env)
        if k == 'tsum':
            return x[1] + x[2]
        if k == 'P':
            v = self.e(x[2], env)
            self.emit(('P', x[1], v))
            return v
        if k == 'call':
            self.step()
            f = x[1]
            vals = [self.e(y, env) for y in x[2]]
            e2 = [env[0], dict(zip(f[1], vals))]
            save = self.indent
            self.s(f[2], e2)
            assert self.indent == save
            return self.e(f[3], e2)
        if k == 'lambda':
            return self.e(x[2], env) + 1
        raise ValueError(k)

    def emit(self, x):
        self.step()
        self.out.append(x)

    def args(self, args, env):
        t, hexa = [], False
        for x in args:
            k = x[0]
            num = lambda v: hexl(v) if hexa else str(v)
            if k == 'str':
                t.append(x[1])
            elif k == 'int':
                t.append(num(self.e(x[1], env)))
            elif k == 'bool':
                t.append(('false', 'true')[self.e(x[1], env)] if self.debug else str(int(self.e(x[1], env))))
            elif k == 'pair':
                a = self.e(x[1], env)
                b = self.e(x[2], env)
                t.append('(%s,%s)' % (num(a), num(b)))
            elif k == 'hex':
                hexa = True
                t.append(hexl(self.e(x[1], env)))
            elif k == 'cond':
                t.append(x[2] if self.e(x[1], env) else x[3])
            elif k == 'nestdout':
                v = self.e(x[2], env)
                self.s(x[1], env)
                t.append(num(v))
        return '.'.join(t)

    def chan(self, ch):
        for c in ch[0]:
            if self.on[c]:
                return c
        return None

    def line(self, label, flag, args, env, before=''):
        self.step()
        ind = self.indent
        self.indent += 4
        t = self.args(args, env)
        self.indent = ind
        if flag == 'noprefix_cf':
            self.emit(('D', None, 0, before + t))
        elif flag == 'nolabel_cf':
            self.emit(('D', '', 0, before + t))
        else:
            self.emit(('D', label, ind, before + t))

    def s(self, x, env):
        self.step()
        k = x[0]
        if k == 'block':
            sc = {}
            save = self.indent
            env2 = env + [sc]
            try:
                for y in x[1]:
                    if y[0] == 'decl':
                        sc[y[1]] = self.e(y[2], env2)
                    else:
                        self.s(y, env2)
            finally:
                self.indent = save
        elif k in ('dout', 'entering'):
            if self.debug:
                c = self.chan(x[1])
                if c:
                    self.line(c.upper(), x[1][2], x[2], env, 'Entering ' if k == 'entering' else '')
                if k == 'entering':
                    self.indent += 2
        elif k == 'ldout':
            if self.debug:
                self.line('WARP', None, x[1], env)
        elif k == 'debug':
            if self.debug:
                for y in x[1]:
                    if y[0] == 'sw':
                        self.on[y[1]] = y[2]
                    else:
                        v = self.e(y[2], env)
                        self.look(env, y[3])[y[3]] += v
        elif k == 'fac':
            if self.debug:
                for c in CHANNELS:
                    if self.on[c]:
                        self.look(env, x[1])[x[1]] += 7
        elif k == 'set':
            v = self.e(x[2], env)
            self.look(env, x[1])[x[1]] = v
        elif k == 'print':
            self.e(('P', x[1], x[2]), env)
        elif k == 'if':
            if self.e(x[1], env):
                self.s(x[2], env)
            elif x[3]:
                self.s(x[3], env)
        elif k == 'for':
            sc = {x[1]: 0}
            while sc[x[1]] < x[2]:
                self.step()
                self.s(x[3], env + [sc])
                sc[x[1]] += 1
        elif k == 'dowhile':
            for _ in range(x[2]):
                self.s(x[3], env)
        elif k == 'switch':
            v = self.e(x[1], env)
            v = v % 4 if v >= 0 else -((-v) % 4)
            j = v if v in (0, 1) else 2
            while j < 3:
                self.s(x[2][j], env)
                if x[3][j]:
                    break
                j += 1
        elif k == 'loopif':
            for j in range(3):
                e2 = env + [{x[1]: j}]
                if j < 1:
                    if x[3] == 'continue':
                        continue
                    self.e(('P', 'lp', ('const', 0)), env)
                else:
                    self.s(x[4], e2)
                if x[3] == 'break':
                    if j == 1:
                        break
                    self.s(x[5], e2)
                else:
                    self.s(x[5], e2)
        elif k == 'label':
            if not self.e(x[1], env):
                self.s(x[2], env)
            self.s(x[3], env)
        elif k == 'lamstmt':
            self.s(x[1], env)
        else:
            raise ValueError(k)

    def entry(self, en):
        self.steps = 0
        env = [{'g_val': en.setdefault('g_dbg' if self.debug else 'g_no', 5)}, dict(zip(en['params'], en['vals']))]
        self.s(en['body'], env)
        if en['fatal']:
            first, cond, ch, flag, args, other = en['fatal']
            if bool(self.e(cond, env)) == first:
                self.step()
                if self.debug:
                    self.line({'core': 'COREDUMP'}.get(ch, ch.upper()), flag, args, env)
                else:
                    t = self.args(args, env)
                    self.emit(('F', t))
                raise Fatal(ch)
            self.s(other, env)
        self.e(('P', 'end', ('const', sum(env[1][p] for p in en['params']))), env)


def program(seed, count):
    """Returns (text, entries): every entry with its expected events in both builds, run as the only one."""
    rng = random.Random(seed)
    g = Gen(rng)
    g.tag = 0
    entries, texts = [], []
    while len(entries) < count:
        en = g.entry()
        try:
            want = {}
            for debug in (True, False):
                r = Run(debug)
                end = None
                try:
                    r.entry(en)
                except Fatal as f:
                    end = str(f)
                want[debug] = (r.out, end)
        except TooLong:
            continue
        en['want'] = want
        entries.append(en)
        texts.append(g.text(en))
    t = HEADER + ''.join(texts) + 'void (*entries[])() = { %s };\n' % ', '.join('ns%d::entry' % e['id'] for e in entries) + MAIN
    return t, entries
