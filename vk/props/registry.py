"""C02: the registry of debug channels."""
from . import prop
from .. import build


@prop('C02')
def c02(ctx):
    ctx.rule = ('one random history per process: 0..230 channels with labels that are prefixes, case variants and duplicates of each '
                'other, created in static constructors, main, one or several threads and a loaded library; visits, listing, labels, '
                'states, lookups and a line compared with a model after each step; non-trivial: at least two added channels; '
                'distinct: by the set of labels')
    runs = ctx.n(500, 6000)
    jobs = []
    for v, share in (('gasan', .6), ('tsan', .25), ('debug', .15)):
        exe = build.program('registry', ['h_registry.cpp'], v)
        mod = build.module('registry', ['m_registry.cpp'], v)
        for i in range(int(runs * share)):
            jobs.append(dict(exe=exe, args=[1, mod], timeout=60, ctxname='registry',
                             env={'VK_EARLY': str(ctx.seed * 100000 + len(jobs)), 'LIBCWD_NO_STARTUP_MSGS': '1'},
                             replay='VK_EARLY=%d %s 1 %s' % (ctx.seed * 100000 + len(jobs), exe, mod)))
    ctx.harness_many(jobs)
    ctx.need(ctx.violations or ctx.extra.get('lookups', 0) > 5000, 'lookups')
    ctx.need(ctx.violations or ctx.extra.get('threads', 0) > 300, 'threads')
    ctx.need(ctx.violations or ctx.extra.get('libraries', 0) > 30, 'libraries')
