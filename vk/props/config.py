"""N03: a program that was compiled with other header files than the library."""
import concurrent.futures, os, random, subprocess
from . import prop
from .. import build, check

PROGRAM = r'''
#include "sys.h"
#include "debug.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
int main(int argc, char*[])
{
  int major, minor, revision;
  libcwd::get_version(major, minor, revision);
  std::printf("VERSION %d %d %d %d\n", major, minor, revision, (int)libcwd::has_location_support());
  std::fflush(stdout);
#if START == 0
  Debug(main_reached());
#elif START == 1
  Debug(NAMESPACE_DEBUG::init());
#else
  Debug(libcw_do.off());                // Switched off things must not hide it.
  Debug(libcw_do.set_ostream(&std::clog));
  Debug(main_reached());
  Debug(libcw_do.on());
  Debug(main_reached());
#endif
  std::printf("STARTED\n");
  std::fflush(stdout);
#if START != 1
  Debug(libcw_do.on());
#endif
  Debug(if (!dc::notice.is_on()) dc::notice.on());
  Debug(libcw_do.set_ostream(&std::cout));
  Dout(dc::notice, "It works");
  std::cout.flush();
  std::_Exit(0);        // The size of DebugObject may differ.
}
'''
FLAGS = ('CW_CONFIG_LOCATION', 'CW_CONFIG_DEBUG', 'CW_CONFIG_DEBUGT', 'CW_CONFIG_DEBUGOUTPUT')
VERS = ('VERSION_MAJOR', 'VERSION_MINOR', 'VERSION_REVISION')


def config(variant, change):
    v = build.config_values(build.VARIANTS[variant][3])
    v.update(change)
    return v


def key(v):
    # DEBUGOUTPUT only has a meaning together with DEBUG (see config.h).
    return tuple(v[x] if x != 'CW_CONFIG_DEBUGOUTPUT' else str(int(v[x]) & int(v['CW_CONFIG_DEBUG'])) for x in FLAGS), tuple(v[x] for x in VERS)


@prop('N03')
def n03(ctx):
    ctx.rule = ('one case = a program compiled with header files of one configuration and version, started by main_reached() or init(), optimised or not, with a library of another or the same '
                '(five libraries; every single difference of a switch or version number, and random combinations); distinct: by (library, header, start, optimisation, linkage)')
    rng = random.Random(ctx.seed)
    libs = ['plain', 'cfgdebug', 'cfgdebugt', 'cfgloc', 'cfgver']
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        sos = dict(zip(libs, ex.map(build.shared_lib, libs)))
    combos = []
    base = config('plain', {})
    for lib in libs:
        lv = config(lib, {})
        changes = [{}]
        for f in FLAGS:
            changes.append({f: '0' if lv[f] == '1' else '1'})
        for v in VERS:
            n = int(lv[v])
            for x in {n + 1, max(0, n - 1), rng.randrange(0, 127)} - {n}:
                changes.append({v: str(x)})
        # Numbers that only together differ; as the other version numbers.
        changes.append({'VERSION_MAJOR': str(int(lv['VERSION_MINOR'])), 'VERSION_MINOR': str(int(lv['VERSION_MAJOR']))})
        for _ in range(3):
            changes.append({f: rng.choice('01') for f in FLAGS})
            changes.append({**{f: rng.choice('01') for f in FLAGS}, rng.choice(VERS): str(rng.randrange(0, 127))})
        for c in changes:
            for start in (0, 1, 2):
                if lib == 'plain' or c == {} or rng.random() < ctx.n(25, 100) / 100:
                    combos.append((lib, c, start, rng.choice(['-O0', '-O2'])))
    d = ctx.tmp
    heads, exes = {}, {}

    def header(vals):
        if repr(vals) not in heads:
            h = os.path.join(d, 'h%d' % len(heads))
            os.makedirs(h)
            build.configure(build.REPO + '/include/libcwd/config.h.in', h + '/libcwd/config.h', vals)
            heads[repr(vals)] = h
        return heads[repr(vals)]

    def one(j, lib, c, start, opt):
        vals = config(lib, c)
        h = heads[repr(vals)]
        # The program itself never differs in the macro _GLIBCXX_DEBUG.
        exe = os.path.join(d, 'e%d' % j)
        cmd = ['g++', '-std=c++20', '-w', opt, '-DCWDEBUG', '-DSTART=%d' % start, '-I' + h, '-I' + h + '/libcwd'] + build.include_flags(lib) + ['-x', 'c++', '-', '-x', 'none', sos[lib],
               '-Wl,-rpath,' + os.path.dirname(sos[lib]), '-Wl,--unresolved-symbols=ignore-in-object-files', '-o', exe]
        p = subprocess.run(cmd, input=PROGRAM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise build.BuildError(' '.join(cmd) + '\n' + p.stdout[-3000:])
        w = os.path.join(d, 'w%d' % j)
        os.makedirs(w)
        with open(w + '/.libcwdrc', 'w') as f:
            f.write('silent = on\n')
        r = check.execute([exe], timeout=60, cwd=w, env={'LIBCWD_NO_STARTUP_MSGS': '1', 'HOME': w})
        os.unlink(exe)
        return vals, r
    for lib, c, _, _ in combos:
        header(config(lib, c))
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        res = list(ex.map(lambda a: one(a[0], *a[1]), enumerate(combos)))
    for (lib, c, start, opt), (vals, r) in zip(combos, res):
        lf, lver = key(config(lib, {}))
        pf, pver = key(vals)
        out, err = r.out.decode('latin-1'), r.err.decode('latin-1')
        what = 'library %s, header changed by %r, started by %s, %s' % (lib, c, ('main_reached', 'init', 'main_reached when off')[start], opt)
        detail = '%s\nexit status %r\nstdout: %s\nstderr: %s' % (what, r.rc, out, err)
        ctx.count(1, what)
        start_ = 'init' if start == 1 else 'main_reached'
        want = 'VERSION %s %s %s %s\n' % (pver + (pf[0],))
        if not out.startswith(want):
            ctx.violation('get_version', detail + '\nexpected: ' + want, what)
        elif (lf, lver) == (pf, pver):
            ctx.stat('equal', 1)
            if r.rc != 0 or 'STARTED' not in out or 'NOTICE  : It works\n' not in out or 'check' in err:
                ctx.violation('equal:refused:' + start_, detail, what)
        else:
            kind = 'version' if lver != pver else 'configuration'
            ctx.stat('different_' + kind, 1)
            text = {'version': 'does not match the version of libcwd/config.h', 'configuration': 'compiled with a different configuration'}[kind]
            if 'STARTED' in out or r.rc == 0:
                ctx.violation('different:accepted:%s:%s' % (start_, kind), detail, what)
            elif r.rc != 180:
                ctx.violation('different:end:%s:%s' % (start_, kind), detail, what)
            elif not any(l.startswith('FATAL   : configuration check: ') and text in l for l in (err + out).split('\n')):
                ctx.violation('different:message:%s:%s' % (start_, kind), detail, what)
            else:
                ctx.sample(what + ': ' + (err + out).strip().split('\n')[-1][:150])
    ctx.need(ctx.violations or (ctx.extra.get('equal', 0) >= 15 and ctx.extra.get('different_version', 0) >= 20 and ctx.extra.get('different_configuration', 0) >= 15), 'combinations')
