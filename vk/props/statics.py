"""N02: debug output from constructors and destructors of global objects."""
import concurrent.futures, os, random, re, subprocess
from . import prop
from .. import build, check
from ..gen import statics

SDIR = build.HARNESS + '/static'


def make(ctx, k, variant, orders):
    """One program in several link orders; returns the commands."""
    rng = random.Random('%d %d' % (ctx.seed, k))
    g = statics.Gen(rng)
    kinds = ['exe'] * rng.randrange(2, 4) + ['so'] * rng.randrange(0, 2) + ['mod'] * rng.randrange(0, 2)
    g.generate(kinds)
    d = os.path.join(ctx.tmp, 'p%d' % k)
    os.makedirs(d)
    cxx, cf, lf, _ = build.VARIANTS[variant]
    flags = [cxx] + build.std_flags(variant) + ['-O0', '-g1', '-I' + SDIR] + build.include_flags(variant)

    def comp(name, text):
        with open('%s/%s.cpp' % (d, name), 'w') as f:
            f.write(text)
        build.run(flags + ['-c', '%s/%s.cpp' % (d, name), '-o', '%s/%s.o' % (d, name)])
        return '%s/%s.o' % (d, name)
    objs = {u.k: comp('u%d' % u.k, g.source(u)) for u in g.units}
    main = comp('main', g.main())
    sink = d + '/libsink.so'
    build.run(flags + lf + ['-shared', SDIR + '/sink.cpp', '-o', sink])
    rp = ['-Wl,-rpath,' + d, '-Wl,--no-as-needed']
    cmds = []
    for o in range(orders):
        lib = list(build.lib_objects(variant))
        mine = [objs[u.k] for u in g.units if u.kind == 'exe'] + [main]
        shared = o % 3 == 2
        if shared:
            rng.shuffle(lib)
            so = '%s/libcwd%d.so' % (d, o)
            build.run([cxx, '-shared'] + lf + lib + ['-o', so] + build.LIBS)
            link = [so]
            rng.shuffle(mine)
        else:
            link = []
            mine += lib
            rng.shuffle(mine)
        extra, mods = [], []
        for u in g.units:
            if u.kind != 'exe':
                p = '%s/libu%d_%d.so' % (d, u.k, o)
                build.run([cxx] + lf + ['-shared', objs[u.k], sink] + link + rp + ['-o', p])
                (extra if u.kind == 'so' else mods).append(p)
        exe = '%s/prog%d' % (d, o)
        build.run([cxx] + lf + ['-rdynamic'] + rp + mine + extra + link + [sink, '-o', exe] + build.LIBS)
        cmds.append((exe, mods, 'shared' if shared else 'static'))
    return cmds, d


@prop('N02')
def n02(ctx):
    ctx.rule = ('one case = one run of a generated program of several units, a linked and a loaded library whose global objects write debug output, define channels and debug objects, '
                'switch, nest, continue, look up and use type_info_of in their constructors and destructors, with all objects of the program and libcwd in random link order; the complete '
                'output until the end of the process is compared with what the program knows to be on; distinct: by the output')
    progs = [('plain', 6)] * ctx.n(14, 80) + [('gasan', 6)] * ctx.n(14, 80)
    for v in ('plain', 'gasan'):
        build.lib_objects(v)
    def one(a):
        k, (v, n) = a
        cmds, d = make(ctx, k, v, n)
        out = []
        for exe, mods, mode in cmds:
            out.append((v, mode, exe, [check.execute([exe] + mods, timeout=60, cwd=d, env={'LIBCWD_NO_STARTUP_MSGS': '1'})]))
        return k, out
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        done = list(ex.map(one, enumerate(progs)))
    for k, out in done:
        for o, (v, mode, exe, (r,)) in enumerate(out):
            replay = './check N02 --seed %d --tier %s (program %d, link order %d: %s, %s)' % (ctx.seed, ctx.tier, k, o, v, mode)
            m = re.search(rb'LINES (\d+)', r.out)
            ctx.count(1, re.sub(rb'STAT.*\n', b'', r.out) + str(k).encode() if m and int(m.group(1)) > 3 else None)
            ctx.stat('runs_' + mode, 1)
            if m:
                ctx.stat('lines', int(m.group(1)))
            ctx._judge([exe], 'statics', replay, r, 60, (0,))
    for e in ('0_before', '0_after', '1_before', '1_after', '4_before', '4_after', '6_before', '6_after', '9_before', '10_after', '7_after', '11_before'):
        ctx.need(ctx.violations or ctx.extra.get('events_' + e, 0) > 2, 'events ' + e)
