"""Initialisation of the program and its threads."""
import os
from . import prop
from .. import build


@prop('I02')
def i02(ctx):
    ctx.rule = ('one case = a child process with a random rcfile and random channels that calls init(), changes channels, creates more, and starts up to eight threads at once '
                '(and those start others) that call init_thread() with any name and mode; on/off states, margin and the announced margins are compared with the model; '
                'distinct: by the output')
    n = ctx.n(16000, 200000)
    jobs = []
    for v, k in (('plain', 3), ('tsan', 3), ('gasan', 2)):
        exe = build.program('init', ['h_init.cpp'], v)
        for i in range(k):
            d = os.path.join(ctx.tmp, 'i%d' % len(jobs))
            os.makedirs(d)
            jobs.append(dict(exe=exe, args=[d, ctx.seed, len(jobs) * (n // 8), n // 8], timeout=400 if not ctx.thorough else 1500,
                             ctxname='init-' + v, env={'LIBCWD_NO_STARTUP_MSGS': '1'}))
    ctx.harness_many(jobs)
    ctx.need(ctx.extra.get('named', 0) > 5000 and ctx.extra.get('unnamed', 0) > 5000, 'named and unnamed threads')
