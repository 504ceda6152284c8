"""I01: type_info_of over generated types."""
import os, random
from . import prop
from .. import build, check
from ..gen import types
from .demangle import same


def make(ctx, k, n, variant):
    rng = random.Random('%d %d' % (ctx.seed, k))
    g = types.Gen(rng)
    all_ = types.rows(g, n)
    d = os.path.join(ctx.tmp, 'p%d' % k)
    os.makedirs(d)
    with open(d + '/types.h', 'w') as f:
        f.write('#pragma once\n' + types.HEADER)
    for t in range(3):
        mine = [x for x in all_ if rng.random() < .8]
        rng.shuffle(mine)
        early = rng.sample(range(2 * len(mine)), len(mine) // (2 if t else 3))
        with open(d + '/tu%d.cpp' % t, 'w') as f:
            f.write(types.tu(t, mine, rng, early))
    with open(d + '/tu2.cpp', 'a') as f:
        f.write('extern "C" void module_rows(std::vector<Row>* r, std::vector<std::pair<size_t, Seen>>* e) { *r = rows2(); *e = early2(); }\n')
    with open(d + '/main.cpp', 'w') as f, open(build.HARNESS + '/h_types.cpp') as h:
        f.write(h.read())
    inc = ['-I' + d, '-O0', '-g0']
    rng.shuffle(srcs := [d + '/tu0.cpp', d + '/tu1.cpp', d + '/main.cpp'])
    exe = build.program('types', srcs, variant, extra_c=inc, outdir=d)
    mod = build.module('types', [d + '/tu2.cpp'], variant, extra_c=inc, outdir=d)
    return exe, mod, {t for t, odd in all_ if odd}


@prop('I01')
def i01(ctx):
    ctx.rule = ('random types (classes with names that look like substitutions, templates, qualified pointers, references, arrays, '
                'functions, member pointers), as explicit type and as type of an object, in two units and a loaded library; first used '
                'before main, or by eight threads at once; non-trivial: more than a builtin type')
    programs = [('gasan', 150), ('tsan', 150), ('asan', 150), ('gasan', 150)] if not ctx.thorough else \
        [(('gasan', 'asan', 'tsan', 'debug')[i % 4], 120) for i in range(24)]
    import concurrent.futures
    for v in sorted({v for v, _ in programs}):
        build.lib_objects(v)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        made = list(ex.map(lambda a: make(ctx, a[0], a[1][1], a[1][0]), enumerate(programs)))
    for k, (exe, mod, odd) in enumerate(made):
        r = ctx.harness(exe, [ctx.seed * 1000 + k, 8, mod], timeout=200, ctxname='types',
                        replay='./check I01 --seed %d --tier %s (program %d)' % (ctx.seed, ctx.tier, k))
        n = 0
        for raw in r.out.split(b'\n'):
            if not raw.startswith(b'R '):
                continue
            what, m, lib, cxa = raw[2:].decode('latin-1').split('\t')
            n += 1
            if cxa == '!' or (lib == m and any(x in what for x in ('RRef<', 'nullptr_t', 'char16_t', 'char8_t'))):
                ctx.stat('left_unchanged', 1)
            elif not same(m, lib, cxa):
                ctx.violation('demangled', '%s\nmangled:  %s\nlibcwd:   %s\nplatform: %s' % (what, m, lib, cxa), 'c++filt -t ' + m)
            elif n % 97 == 3:
                ctx.sample('%s: %s' % (what, lib))
    ctx.need(ctx.violations or ctx.extra.get('thread_uses', 0) > 500, 'uses by threads')
    ctx.need(ctx.violations or ctx.extra.get('library_uses', 0) > 100, 'uses by a library')
