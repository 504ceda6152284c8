"""A01, A02, A03, X01: locations and dynamically loaded libraries."""
import concurrent.futures, os, random, shutil
from . import prop
from .. import build, check
from ..gen import locs


def harness_object(src, variant, extra=()):
    """Compile one harness source; returns the object file."""
    build.lib_headers(variant)
    d = os.path.join(build.variant_dir(variant), 'prog')
    os.makedirs(d, exist_ok=True)
    s = os.path.join(build.HARNESS, src)
    o = os.path.join(d, '%s-%s.o' % (src, build._hash_files([s], list(extra))))
    if not os.path.exists(o):
        build._atomic_run([build.VARIANTS[variant][0]] + build.std_flags(variant) + list(extra) + build.include_flags(variant) +
                          ['-I' + build.HARNESS, '-c', s, '-o', o], o)
    return o


# The names of ELF symbols that are replaced by debug information are leaked on purpose.
NOLEAK = check.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
OPT = ['-O0', '-O0', '-O1', '-O2', '-O2', '-O3', '-Os', '-Og']


class Program:
    """A generated program with linked and loaded libraries."""

    def __init__(self, ctx, k, variant, harness, nlinked=None, nloaded=None, extra_l=()):
        r = self.r = random.Random('locs %d %d' % (ctx.seed, k))
        self.dir = d = os.path.join(ctx.tmp, r.choice(['p%d', 'p %d', 'p+%d']) % k)
        os.makedirs(d)
        self.expect, self.objects, linked, self.desc = [], [], [], []
        n = 0
        plan = ['exe'] + ['lk%d' % i for i in range(r.randrange(0, 3) if nlinked is None else nlinked)] + \
            ['dl%d' % i for i in range(r.randrange(0, 3) if nloaded is None else nloaded)]
        exe_objs = []
        for name in plan:
            od = os.path.join(d, r.choice(['', 'sub/', 'a/b/']) + name + '.d')
            os.makedirs(od)
            o = locs.Obj(random.Random(r.random()), name, od, r.randint(1, 3))
            n = o.generate(n)
            kind = r.choices(['debug', 'none', 'stripped', 'separate'], [7, 1, 1, 2])[0] if name != 'exe' else r.choice(['debug', 'debug', 'debug', 'none'])
            dbg = [r.choice(['-g', '-g', '-ggdb3', '-gdwarf-4', '-gdwarf-5'])]
            if kind == 'none':
                dbg = ['-g0']
            if r.random() < .2:
                dbg.append('-gz')
            # The shared functions come from one of the units: either all or none of these have debug information.
            fam = r.choice(['g', 'g', 'clang'])
            objs, nodebug, desc = [], False, []
            for f, lang in o.files:
                cc = {'gc': 'gcc', 'gc++': 'g++', 'clangc': 'clang', 'clangc++': 'clang++'}[fam + lang]
                fl = [r.choice(OPT), '-fPIC', '-w', '-fno-optimize-sibling-calls'] + dbg + r.choice([[], [], ['-ffunction-sections']]) + \
                    r.choice([[], [], ['-fno-omit-frame-pointer']])
                mine_nodebug = kind != 'none' and lang == 'c' and r.random() < .3
                if mine_nodebug:
                    fl.append('-g0')
                src = f if r.random() < .6 else os.path.join(od, f)
                ob = os.path.join(od, f.replace('/', '_') + '.o')
                build.run([cc] + fl + ['-I.', '-c', src, '-o', ob], cwd=od)
                objs.append(ob)
                desc.append(' '.join([cc] + fl))
                if mine_nodebug:
                    for e in o.expect:
                        if e[1] == os.path.join(od, f):
                            e[1] = '-'
            self.expect += o.expect
            self.desc.append('%s (%s): %s' % (name, kind, '; '.join(desc)))
            link = [fam == 'g' and 'g++' or 'clang++'] + r.choice([[], ['-Wl,--gc-sections'], ['-Wl,-z,noseparate-code']])
            if name == 'exe':
                exe_objs = objs
                if kind == 'none':
                    for e in o.expect:
                        e[1] = '-'
                self.objects.append([name, d + '/prog', '', 0])     # Has that of libcwd in any case.
                continue
            so = os.path.join(od, r.choice(['lib%s.so', 'lib%s.so.1.2', 'lib %s.so']) % name)
            build.run(link + ['-shared'] + objs + ['-Wl,-soname,' + os.path.basename(so), '-o', so])
            debug = ''
            if kind == 'stripped':
                build.run(['strip', '--strip-all', so])
            elif kind == 'separate':
                debug = so + '.debug' if r.random() < .5 else os.path.join(od, '.debug', os.path.basename(so) + '.debug')
                os.makedirs(os.path.dirname(debug), exist_ok=True)
                build.run(['objcopy', '--only-keep-debug', so, debug])
                build.run(['objcopy', r.choice(['--strip-debug', '--strip-all']), '--add-gnu-debuglink=' + debug, so])
            self.objects.append([name, so, debug, {'debug': 0, 'none': 1, 'stripped': 2, 'separate': 0}[kind]])
            if name[:2] == 'lk':
                linked.append(so)
        cxx, cf, lf, _ = build.VARIANTS[variant]
        shared = r.random() < .3 and not extra_l
        lib = [build.shared_lib(variant), '-Wl,-rpath,' + os.path.dirname(build.shared_lib(variant))] if shared else build.lib_objects(variant)
        pie = ['-no-pie'] if r.random() < .25 else []
        self.exe = d + '/prog'
        # A relative path to a library is kept as it is in the link map.
        self.relative = bool(linked) and r.random() < .4
        rp = ['-Wl,-rpath,' + ('.' if self.relative and os.path.dirname(l) == d else os.path.relpath(os.path.dirname(l), d) if self.relative else os.path.dirname(l))
              for l in linked]
        build.run([cxx] + lf + pie + ['-rdynamic', '-Wl,--no-as-needed'] + [harness_object(h, variant) for h in harness] + exe_objs + list(lib) + linked + rp +
                  list(extra_l) + ['-o', self.exe] + build.LIBS)
        with open(d + '/expect.txt', 'w') as f:
            for e in self.expect:
                f.write('%d\t%s\t%d\t%s\t%s\n' % (e[0], e[1], e[2], ','.join(e[3]), e[4]))
        with open(d + '/objects.txt', 'w') as f:
            for o in self.objects:
                f.write('%s\t%s\t%s\t%d\n' % tuple(o))
        self.desc.append('linked with libcwd %s, %s%s' % (variant, 'shared' if shared else 'static', ', relative rpath' if self.relative else ''))


def programs(ctx, specs, workers=None):
    """Build Program objects in parallel; specs is a list of argument tuples after ctx."""
    for v in {s[1] for s in specs}:
        build.lib_objects(v)
        build.shared_lib(v)
        for h in {h for s in specs if s[1] == v for h in s[2]}:
            harness_object(h, v)
    with concurrent.futures.ThreadPoolExecutor(workers or build.JOBS) as ex:
        return list(ex.map(lambda s: Program(ctx, *s[:3], **(s[3] if len(s) > 3 else {})), specs))


@prop('A01')
def a01(ctx):
    ctx.rule = ('one case = one lookup in a generated program of C and C++ units (all kinds of functions, inlined, in several sections, with #line, several compilers, levels and '
                'kinds of debug information, executables and linked and loaded libraries), in a random order per process; the answer for a probe must be the line that was '
                'generated, that for any other address what a separate reader of the debug information and the symbol table says; distinct: by source line or address')
    n = ctx.n(24, 300)
    variants = ['plain', 'gasan', 'asan']
    progs = programs(ctx, [(k, variants[k % 3], ['h_location.cpp']) for k in range(n)])
    jobs = []
    for k, p in enumerate(progs):
        for e in range(2):
            env = {'LIBCWD_NO_STARTUP_MSGS': '1', 'VK_DIR': p.dir, 'ASAN_OPTIONS': NOLEAK}
            if e:
                env['VK_EARLY'] = str(ctx.seed * 1000 + k)
            jobs.append(dict(exe='/bin/sh', args=['-c', 'cd "$1" && exec ./prog "$1" "$2" "$3" "$4"', 'sh', p.dir, ctx.seed * 7919 + k * 2 + e, ctx.n(4, 10), ctx.n(150, 500)],
                             timeout=200, ctxname='location', env=env, replay='seed %d program %d early %d: %s' % (ctx.seed, k, e, ' | '.join(p.desc))))
    ctx.harness_many(jobs)
    ctx.need(ctx.violations or ctx.extra.get('probes', 0) > 1000, 'probes')
    ctx.need(ctx.violations or ctx.extra.get('inlined', 0) > 300, 'inlined code')
    ctx.need(ctx.violations or ctx.extra.get('elf_only', 0) > 300, 'functions without debug information')
    ctx.need(ctx.violations or ctx.extra.get('nowhere', 0) > 100, 'addresses outside every object')


@prop('A02')
def a02(ctx):
    ctx.rule = ('one case = a random history of about 80 operations (construct, copy, assign, self-assign, swap, clear, look up again, lock ownership, grow a vector, destroy) on up to '
                'six Location objects for known, unknown and partly known addresses; every object that the rules of ownership allow to be read is compared with the model through all '
                'accessors and printed in all formats; distinct: by the history')
    jobs = []
    cases = ctx.n(6000, 120000)
    for v in ('gasan', 'asan', 'plain', 'debug'):
        exe = build.program('locvalue', ['h_locvalue.cpp'], v)
        for k in range(2):
            jobs.append(dict(exe=exe, args=[ctx.seed, len(jobs) * (cases // 8), cases // 8, 80], timeout=300, ctxname='locvalue', env={'LIBCWD_NO_STARTUP_MSGS': '1'}))
    ctx.harness_many(jobs)
    ctx.need(ctx.violations or ctx.extra.get('compared', 0) > 50000, 'comparisons')
    ctx.need(ctx.violations or ctx.extra.get('locked', 0) > 1000 and ctx.extra.get('self_assigned', 0) > 1000, 'locks and self-assignments')


class Libraries:
    """A program and libraries that depend on, open, close or replace each other; DIST is to be copied for every run."""

    def __init__(self, ctx, k, variant, wrap=False):
        r = self.r = random.Random('dl %d %d' % (ctx.seed, k))
        self.tmp = os.path.join(ctx.tmp, 'L%d' % k)
        self.dist = os.path.join(self.tmp, 'dist')
        os.makedirs(self.dist)
        self.rows, self.desc = [], []
        self.n = 0
        debug = lambda: r.choice([['-g'], ['-g'], ['-gdwarf-4'], ['-g0']])

        def lib(name, out=None, needs=(), extra='', flags=(), kind=0, spellings=('abs',), objname=None, sub=''):
            src = os.path.join(self.tmp, (out or name) + '.d')
            os.makedirs(src)
            o = locs.Obj(random.Random(r.random()), objname or name, src, r.randint(1, 2))
            self.n = o.generate(self.n)
            if extra:
                with open(os.path.join(src, 'extra.cc'), 'w') as f:
                    f.write(extra)
                o.files.append(('extra.cc', 'c++'))
            d = os.path.join(self.dist, sub)
            os.makedirs(d, exist_ok=True)
            so = os.path.join(d, 'lib%s.so' % (out or name))
            cf = [r.choice(OPT), '-fPIC', '-w'] + debug()
            objs = []
            for f, lang in o.files:
                ob = os.path.join(src, f.replace('/', '_') + '.o')
                build.run([{'c': 'gcc', 'c++': 'g++'}[lang]] + cf + ['-I.', '-c', f, '-o', ob], cwd=src)
                objs.append(ob)
            build.run(['g++', '-shared', '-Wl,--no-as-needed', '-Wl,-soname,lib%s.so' % name] + list(flags) + objs +
                      [os.path.join(self.dist, n) for n in needs] + ['-Wl,-rpath,$ORIGIN' + ('/..' if sub else ''), '-o', so])
            self.desc.append('%s: %s %s needs %s' % (out or name, ' '.join(cf), ' '.join(flags), ','.join(needs)))
            if kind is not None:
                self.row(name, 'lib%s.so' % (out or name) if not sub else sub + '/lib%s.so' % name, kind, spellings)
            return so

        lib('dep')
        lib('top', needs=['libdep.so'])
        if r.random() < .6:
            lib('top2', needs=['libdep.so'] + (['libtop.so'] if r.random() < .5 else []))
        lib('one', sub=r.choice(['', 'sub', 'a dir']), spellings=('abs', 'link', 'dots', 'rel'))
        for i in range(r.randint(0, 2)):
            lib('n%d' % i, flags=r.choice([[], ['-Wl,-z,max-page-size=0x200000'], ['-Wl,-z,noseparate-code'], ['-Wl,-z,now']]), spellings=('abs', 'rel'))
        if r.random() < .6:
            lib('stay', flags=['-Wl,-z,nodelete'])
        lib('target')
        t = r.choice(['target', 'dep', 'target'])
        opens = '''#include <dlfcn.h>
#include <cstdlib>
#include <string>
static void* open_it() { return dlopen((std::string(getenv("VK_DIR")) + "/lib%s.so").c_str(), %s); }
namespace { struct X { void* h; X() { h = open_it(); %s } ~X() { %s } } x; }
'''
        lib('ctor', extra=opens % (t, r.choice(['RTLD_NOW', 'RTLD_LAZY | RTLD_GLOBAL']), r.choice(['', 'if (h) { dlclose(h); h = open_it(); }']), 'if (h) dlclose(h);'))
        if r.random() < .5:
            lib('dtor', extra=opens % (t, 'RTLD_NOW', 'if (h) dlclose(h); h = 0;', 'if ((h = open_it())) dlclose(h);'))
        # A library of which the file is replaced between two uses.
        for v in range(2):
            os.rename(lib('rep', out='rep%d' % v, kind=None), os.path.join(self.dist, 'librep.so.v%d' % v))
        self.row('rep', 'librep.so', 2, ('abs',))
        # Libraries that cannot be loaded.
        D = self.dist
        with open(D + '/libtext.so', 'w') as f:
            f.write('This is not a library.\n' * 20)
        with open(D + '/libempty.so', 'w') as f:
            pass
        with open(D + '/libtop.so', 'rb') as f:
            with open(D + '/libcut.so', 'wb') as g:
                g.write(f.read()[:300])
        os.makedirs(D + '/libdir.so')
        with open(self.tmp + '/u.c', 'w') as f:
            f.write('extern int vk_nowhere_defined; int *vk_u = &vk_nowhere_defined; int vk_run_undef(void) { return *vk_u; }\n')
        build.run(['gcc', '-shared', '-fPIC', self.tmp + '/u.c', D + '/libdep.so', '-Wl,-rpath,$ORIGIN', '-Wl,--no-as-needed', '-o', D + '/libundef.so'])
        build.run(['gcc', '-shared', '-fPIC', '-x', 'c', '/dev/null', '-Wl,-soname,libmissingdep.so', '-o', self.tmp + '/libmissingdep.so'])
        build.run(['gcc', '-shared', '-fPIC', '-Wl,--no-as-needed', '-x', 'c', '/dev/null', '-x', 'none', D + '/libdep.so', self.tmp + '/libmissingdep.so', '-Wl,-rpath,$ORIGIN', '-o', D + '/libneeds.so'])
        for n in r.sample(['text', 'empty', 'cut', 'dir', 'undef', 'needs', 'nofile'], 3):
            self.row(n, 'lib%s.so' % n, 1, ('abs', 'rel'))
        linked = []
        if r.random() < .7:
            linked.append(lib('lk', needs=['libdep.so'] if r.random() < .3 else []))
        od = os.path.join(self.tmp, 'exe.d')
        os.makedirs(od)
        o = locs.Obj(random.Random(r.random()), 'exe', od, 2)
        o.generate(self.n)
        objs = []
        for f, lang in o.files:
            ob = os.path.join(od, f.replace('/', '_') + '.o')
            build.run([{'c': 'gcc', 'c++': 'g++'}[lang], r.choice(OPT), '-g', '-w', '-fPIC', '-I.', '-c', f, '-o', ob], cwd=od)
            objs.append(ob)
        cxx, cf, lf, _ = build.VARIANTS[variant]
        shared = r.random() < .3 and not wrap
        libs = [build.shared_lib(variant), '-Wl,-rpath,' + os.path.dirname(build.shared_lib(variant))] if shared else build.lib_objects(variant)
        if wrap:
            # In libcwd only, not in ThreadSanitizer.
            renamed = []
            for o in libs:
                renamed.append(os.path.join(self.tmp, os.path.basename(o)))
                build.run(['objcopy', '--redefine-sym', 'dlsym=vk_dlsym', '--redefine-sym', 'dl_iterate_phdr=vk_dl_iterate_phdr', o, renamed[-1]])
            libs = renamed
        build.run([cxx] + lf + (['-no-pie'] if r.random() < .25 else []) + ['-rdynamic', '-Wl,--no-as-needed', harness_object('h_dl.cpp', variant)] + objs + list(libs) + linked +
                  ['-Wl,-rpath,$ORIGIN'] + (['-Wl,--wrap=' + w for w in WRAPPED] if wrap else []) + ['-o', self.dist + '/prog'] + build.LIBS)
        self.desc.append('linked with libcwd %s, %s, and %d libraries' % (variant, 'shared' if shared else 'static', len(linked)))

    def row(self, name, path, kind, spellings):
        self.rows.append((name, path, kind, spellings))

    def install(self, where):
        shutil.copytree(self.dist, where, symlinks=True)
        # Both versions are alive all the time, so that their inodes differ.
        with open(where + '/libs.txt', 'w') as f:
            for name, path, kind, spellings in self.rows:
                full = os.path.join(where, path)
                if kind == 2:
                    os.link(full + '.v0', full)
                sp = []
                for s in spellings:
                    if s == 'abs':
                        sp.append(full)
                    elif s == 'rel':
                        sp.append('./' + path)
                    elif s == 'dots':
                        sp.append(os.path.join(where, '.', os.path.dirname(path), '..' if os.path.dirname(path) else '.', path))
                    elif s == 'link':
                        os.symlink(full, os.path.join(where, 'link to ' + name))
                        sp.append(os.path.join(where, 'link to ' + name))
                f.write('\t'.join([name, full, str(kind)] + sp) + '\n')
        return where


WRAPPED = ['dwarf_diecu', 'dwarf_getscopes', 'dwarf_getscopes_die', 'dwarf_getsrc_die', 'dwarf_getsrclines', 'dwarf_child', 'dwarf_siblingof', 'dwarf_tag', 'dwarf_haspc',
           'dwarf_diename', 'dwarf_attr_integrate', 'dwarf_attr', 'dwarf_ranges', 'dwarf_getfuncs', 'dwarf_nextcu', 'dwarf_offdie', 'dwarf_addrdie', 'dwarf_end']


def libraries(ctx, specs):
    for v in {s[1] for s in specs}:
        build.lib_objects(v)
        build.shared_lib(v)
        harness_object('h_dl.cpp', v)
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        return list(ex.map(lambda s: Libraries(ctx, *s), specs))


def dl_jobs(ctx, libs, mode, runs, cases, ops, threads=6, timeout=300):
    jobs = []
    for k, p in enumerate(libs):
        for e in range(runs):
            d = p.install(os.path.join(p.tmp, '%srun%d' % (mode, e)))
            env = {'LIBCWD_NO_STARTUP_MSGS': '1', 'ASAN_OPTIONS': NOLEAK,
                   # libdw loads libraries that are not instrumented.
                   'TSAN_OPTIONS': check.SAN_ENV['TSAN_OPTIONS'] + ':ignore_noninstrumented_modules=1'}
            if p.r.random() < .2:
                env['LIBCWD_PRINT_LOADING'] = '1'
            jobs.append(dict(exe=d + '/prog', args=[d, mode, ctx.seed * 7919 + k * 50 + e, 0, cases, ops, threads], timeout=timeout, ctxname='dl', env=env,
                             replay='seed %d libraries %d run %d: %s' % (ctx.seed, k, e, ' | '.join(p.desc))))
    return jobs


@prop('X01')
def x01(ctx):
    ctx.rule = ('one case = one call to dlopen or dlclose in a random history over generated libraries (with dependencies, already linked, opened and closed by constructors and '
                'destructors, replaced on disk, through links and other spellings, that cannot be loaded; all flags), followed by lookups in everything that is loaded '
                'and in what was unloaded; distinct: by the history so far')
    variants = ['plain', 'gasan', 'debug', 'asan']
    libs = libraries(ctx, [(k, variants[k % 4]) for k in range(ctx.n(8, 64))])
    ctx.harness_many(dl_jobs(ctx, libs, 's', 2, ctx.n(4, 20), 40))
    ctx.need(ctx.violations or ctx.extra.get('lookups', 0) > 5000, 'lookups')
    ctx.need(ctx.violations or ctx.extra.get('unloaded', 0) > 100, 'libraries that were unloaded')
    ctx.need(ctx.violations or ctx.extra.get('unloaded_lookups', 0) > 200, 'lookups in unloaded libraries')
    ctx.need(ctx.violations or ctx.extra.get('replaced', 0) > 10, 'replaced libraries')


@prop('A03')
def a03(ctx):
    ctx.rule = ('one case = a program in which up to eight threads look up addresses in the executable and in libraries while they load and unload these, under '
                'ThreadSanitizer (with every call to libdw as a write to its handle), AddressSanitizer and plainly; every answer is compared with what a separate reader of the '
                'debug information says; distinct: by the seed of the schedule')
    variants = ['tsan', 'tsan', 'plain', 'gasan']
    libs = libraries(ctx, [(100 + k, variants[k % 4], variants[k % 4] == 'tsan') for k in range(ctx.n(8, 32))])
    jobs = []
    for k, p in enumerate(libs):
        jobs += dl_jobs(ctx, [p], 'c', 2, ctx.n(6, 40), 40, 4 + k % 5, 600)
        if variants[k % 4] != 'tsan':
            jobs += dl_jobs(ctx, [p], 'b', 2, ctx.n(60, 400), 0, 8, 600)
    ctx.harness_many(jobs, workers=4)
    ctx.need(ctx.violations or ctx.extra.get('lookups', 0) > 3000, 'lookups')
    ctx.need(ctx.violations or ctx.extra.get('libdw_calls', 0) > 1000, 'calls of libdw')
