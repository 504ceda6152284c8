"""Generates programs and libraries whose code reports addresses of which file, line, function and object are known.

Every call vk_probe(ID) is the only thing on its line; the return address that vk_probe sees, minus one, is inside the call and
must be resolved to that line. What is expected of each ID goes in a table."""
import os, random

INT = 'i'


class Fn:
    """A function: how it is declared, called, and what its mangled name is."""
    def __init__(self, names, plain, call, head, tail='}', pre='', post='', inline=False):
        self.names, self.plain, self.call, self.head, self.tail, self.pre, self.post, self.inline = names, plain, call, head, tail, pre, post, inline


def ln(s):
    return '%d%s' % (len(s), s)


class Obj:
    def __init__(self, rng, name, directory, ntu, c_ok=True):
        self.r, self.name, self.dir = rng, name, directory
        self.uid = 0
        self.expect = []        # (id, path, line, names, plain)
        self.files = []         # (path, language)
        self.nid = 0
        self.entry = []         # calls for vk_run
        self.ntu = ntu

    def ident(self, p):
        self.uid += 1
        # Identifiers with what may confuse a lookup: long names, names that are a prefix of another.
        base = self.r.choice(['f', 'fn', 'foo', 'do_it', 'x' * self.r.randint(1, 60)])
        return '%s%s_%s%d' % (p, base, self.name, self.uid)

    def function(self, lang, static, inl, shared=False):
        """A random kind of function with one int parameter."""
        r = self.r
        n = self.ident('')
        attr = '__attribute__((always_inline)) inline ' if inl else r.choice(['__attribute__((noinline)) ', '__attribute__((noinline)) ', '__attribute__((noinline, cold)) ',
            '__attribute__((noinline, section(".text.vk_%s"))) ' % n])
        if shared and not inl: attr = 'inline __attribute__((noinline)) '
        if lang == 'c':
            if inl: attr = 'static __attribute__((always_inline)) inline '
            elif static: attr = 'static ' + attr
            return Fn([n], n, n + '(%s)', attr + 'void %s(int a)\n{' % n, pre='' if inl or static else 'void %s(int a);\n' % n, inline=inl)
        k = r.choice(['free', 'ns', 'anon', 'static', 'cfn', 'member', 'cmember', 'smember', 'ctor', 'dtor', 'call', 'tmpl', 'ntmpl', 'tmember', 'lambda', 'virtual', 'conv'])
        if k == 'virtual' and inl: k = 'member'
        if shared and k in ('anon', 'static', 'lambda'): k = 'ns'
        if k in ('tmpl', 'ntmpl', 'tmember') and not inl: attr = '__attribute__((noinline)) '
        if k == 'static': return Fn(['_ZL%si' % ln(n)], n, n + '(%s)', ('static ' + attr) + 'void %s(int a)\n{' % n, inline=inl)
        if k == 'free': return Fn(['_Z%si' % ln(n)], n, n + '(%s)', attr + 'void %s(int a)\n{' % n, inline=inl)
        if k == 'ns':
            m = self.ident('n')
            return Fn(['_ZN%s1b%sEi' % (ln(m), ln(n))], n, m + '::b::' + n + '(%s)', attr + 'void %s(int a)\n{' % n, '} } }', 'namespace %s { namespace b {\n' % m, inline=inl)
        if k == 'anon':
            return Fn(['_ZN12_GLOBAL__N_1%sEi' % ln(n)], n, n + '(%s)', attr + 'void %s(int a)\n{' % n, '} }', 'namespace {\n', inline=inl)
        if k == 'cfn':
            return Fn([n], n, n + '(%s)', 'extern "C" ' + attr + 'void %s(int a)\n{' % n, pre='', inline=inl)
        if k == 'tmpl':
            t, c = r.choice([('int', 'i'), ('char', 'c'), ('long', 'l'), ('unsigned', 'j')])
            return Fn(['_Z%sI%sEvT_' % (ln(n), c)], n + '<%s>' % t, n + '<%s>(%%s)' % t, 'template<typename T> ' + attr + 'void %s(T a_)\n{ int a = (int)a_;' % n, inline=inl)
        if k == 'ntmpl':
            return Fn(['_Z%sILi7EEvi' % ln(n)], n + '<7>', n + '<7>(%s)', 'template<int N> ' + attr + 'void %s(int a)\n{' % n, inline=inl)
        if k == 'lambda':
            m = self.ident('l')
            if inl: return self.function(lang, static, False)
            return Fn(['_ZZ%siENKUliE_clEi' % ln(m), '_ZZ%siENK3$_0clEi' % ln(m)], 'operator()', m + '(%s)',
                      '__attribute__((noinline)) void %s(int b)\n{ auto l = [](int a) __attribute__((noinline)) {' % m, '}; l(b); asm volatile(""); }')
        s = self.ident('S')
        # A class; the function is defined inside or outside of it.
        inside = inl or shared or r.random() < .5 or k == 'tmember'
        d = dict(member=('void', n, '', '_ZN%s%sEi' % (ln(s), ln(n))), cmember=('void', n, ' const', '_ZNK%s%sEi' % (ln(s), ln(n))),
                 smember=('static void', n, '', '_ZN%s%sEi' % (ln(s), ln(n))), call=('void', 'operator()', '', '_ZN%sclEi' % ln(s)),
                 virtual=('virtual void', n, '', '_ZN%s%sEi' % (ln(s), ln(n))))
        inst = '%s()' % s
        if k in d:
            ret, nm, cv, mang = d[k]
            call = {'smember': s + '::' + n + '(%s)', 'call': inst + '(%s)'}.get(k, inst + '.' + n + '(%s)')
            # An inline function cannot always be in a section of its own.
            if inside and 'section' in attr: attr = '__attribute__((noinline)) '
            if inside: return Fn([mang], nm, call, attr + ret + ' %s(int a)%s\n{' % (nm, cv), '} };', 'struct %s {\n' % s, inline=inl)
            return Fn([mang], nm, call, attr + ret.replace('static ', '').replace('virtual ', '') + ' %s::%s(int a)%s\n{' % (s, nm, cv), '}', 'struct %s { %s %s(int a)%s; };\n' % (s, ret, nm, cv))
        if k == 'tmember':
            return Fn(['_ZN%sIiE%sEi' % (ln(s), ln(n))], n, s + '<int>().' + n + '(%s)', attr + 'void %s(int a)\n{' % n, '} };', 'template<typename T> struct %s {\n' % s, inline=inl)
        if k == 'conv':
            return Fn(['_ZN%scviEv' % ln(s)], 'operator int', '(void)(int)%s{%%s}' % s, attr + 'operator int()\n{', 'return a; } };', 'struct %s { int a;\n' % s, inline=inl)
        if k == 'dtor':
            attr = attr.split(', section')[0].split(', cold')[0] + (')) ' if ', ' in attr else '')
            return Fn(['_ZN%sD%sEv' % (ln(s), c) for c in '0124'], '~' + s, '(void)%s{%%s}' % s, attr + '~%s()\n{' % s, '} };', 'struct %s { int a;\n' % s, inline=inl)
        attr = attr.split(', section')[0].split(', cold')[0] + (')) ' if ', ' in attr else '')
        return Fn(['_ZN%sC%sEi' % (ln(s), c) for c in '124'], s, '(void)%s(%%s)' % s, attr + '%s(int a)\n{' % s, '} };', 'struct %s {\n' % s, inline=inl)

    def body(self, w, fn, callees, depth=0):
        """Statements of fn, with probes; w writes lines."""
        r = self.r
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .45:
                self.probe(w, fn, '  ' * (depth + 1))
            elif k < .6 and callees:
                c = r.choice(callees)
                w('  ' * (depth + 1) + (c.call % r.choice(['a', 'a + 1', '3'])) + ';')
            elif k < .7:
                w('  ' * (depth + 1) + 'vk_sink += a * %d;' % r.randint(2, 9))
            elif k < .8:
                w('')
                if r.random() < .3: w('  // ' + 'x' * r.randint(0, 200))
            elif depth < 2:
                if r.random() < .5:
                    w('  ' * (depth + 1) + 'if (a > vk_never)')
                else:
                    w('  ' * (depth + 1) + 'for (int i%d = 0; i%d < 2; ++i%d)' % (depth, depth, depth))
                w('  ' * (depth + 1) + '{')
                self.body(w, fn, callees, depth + 1)
                w('  ' * (depth + 1) + '}')
        if depth == 0:
            self.probe(w, fn, '  ')
            w('  vk_sink += 1;')

    def probe(self, w, fn, ind):
        i = self.nid
        self.nid += 1
        self.expect.append([self.base + i, os.path.join(self.dir, w.file), w.line, fn.names, fn.plain])
        w(ind + 'vk_probe(VK_BASE + %d);' % i)

    def emit(self, w, fn, callees):
        for l in (fn.pre + fn.head).split('\n'):
            w(l)
        self.body(w, fn, callees)
        for l in fn.tail.split('\n'):
            w(l)
        w('')
        # Sometimes pretend to be in another file from here.
        if self.r.random() < .06 and w.lines_ok:
            f = self.r.choice(['virtual/gen.y', 'gen_%d.h' % self.r.randint(0, 99), os.path.join(self.dir, 'abs dir', 'z.cc')])
            n = self.r.choice([1, 10, 100000, 65535, 7])
            w.raw('#line %d "%s"' % (n, f))
            w.file, w.line = f, n

    def generate(self, base):
        r = self.r
        self.base = base
        pro = '#define VK_BASE %d\n' % base
        decl = 'extern %svoid vk_probe(int);\nextern %sint volatile vk_sink, vk_never;\n'
        # A header whose inline functions are used by several translation units.
        hdr = self.writer('inc/%s_shared.h' % self.name)
        shared = []
        for _ in range(r.randint(1, 3)):
            f = self.function('c++', False, r.random() < .6, True)
            self.emit(hdr, f, [x for x in shared if x.inline] if f.inline else shared)
            shared.append(f)
        hdr.close()
        runs = []
        for t in range(self.ntu):
            lang = 'c' if self.r.random() < .2 and t else 'c++'
            rel = r.choice(['', 'src/', 'deep/er/']) + '%s_%d.%s' % (self.name, t, 'c' if lang == 'c' else r.choice(['cpp', 'cc', 'cxx']))
            w = self.writer(rel)
            w.lines_ok = True
            for l in (pro + (decl % (('', '') if lang == 'c' else ('"C" ', '"C" ')))).strip().split('\n'):
                w(l)
            if lang == 'c++':
                w('#include "inc/%s_shared.h"' % self.name)
            fns = list(shared) if lang == 'c++' else []
            for _ in range(r.randint(2, 6)):
                f = self.function(lang, r.random() < .5, r.random() < .4)
                self.emit(w, f, fns)
                fns.append(f)
            run = 'vk_tu_%s_%d' % (self.name, t)
            runs.append(run)
            # The entry calls everything, on lines of its own.
            fn = Fn([run], run, run + '(%s)', ('extern "C" ' if lang != 'c' else '') + 'void %s(int a)\n{' % run)
            for l in fn.head.split('\n'):
                w(l)
            for f in fns:
                w('  ' + f.call % 'a' + ';')
                if r.random() < .4:
                    self.probe(w, fn, '  ')
            w('  vk_sink += 1;')
            w('}')
            if t == 0:
                decls = ''.join('extern "C" void %s(int);' % ('vk_tu_%s_%d' % (self.name, j)) for j in range(self.ntu))
                w(decls)
                w('extern "C" void vk_run_%s(int a) { %s vk_sink += 1; }' % (self.name, ' '.join('vk_tu_%s_%d(a);' % (self.name, j) for j in range(self.ntu))))
                w('extern "C" void vk_register(char const*, void (*)(int));')
                w('__attribute__((constructor(300))) static void vk_reg_%s() { vk_register("%s", vk_run_%s); }' % (self.name, self.name, self.name))
            w.close()
            self.files.append((rel, lang))
        return base + self.nid

    def writer(self, rel):
        return Writer(os.path.join(self.dir, rel), rel)


class Writer:
    def __init__(self, path, rel):
        self.path, self.file, self.line, self.out, self.lines_ok = path, rel, 1, [], False

    def raw(self, l):
        self.out.append(l)

    def __call__(self, l):
        for x in l.split('\n'):
            self.out.append(x)
            self.line += 1

    def close(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with open(self.path, 'w') as f:
            f.write('\n'.join(self.out) + '\n')
