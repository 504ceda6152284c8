"""Concurrent threads: what each sends is replayed in the order in which the stream was locked."""
from . import prop
from .. import build


def threads(ctx, mode, runs, ops, variants=(('tsan', 4), ('gasan', 3), ('plain', 1)), nthreads=6):
    exes = [(build.program('threads', ['h_threads.cpp'], v), n, v) for v, n in variants]
    total = sum(n for _, n, _ in exes)
    per = max(1, runs // total)
    jobs = []
    for exe, n, v in exes:
        for k in range(n):
            jobs.append(dict(exe=exe, args=[mode, ctx.seed, len(jobs) * per, per, ops, nthreads], timeout=400 if not ctx.thorough else 800,
                             ctxname='threads-%s-%s' % (mode, v), env={'LIBCWD_NO_STARTUP_MSGS': '1'}))
    ctx.harness_many(jobs)


RULE = ('one case = one run of up to %d concurrent threads with random histories of about %d operations each (%s); every period in which '
        'the stream was locked must carry exactly what the model says the locking thread sends next; the state of a thread is compared '
        'with its model after each of its operations; distinct: by the order in which threads got the stream')


@prop('T01')
def t01(ctx):
    ctx.rule = RULE % (7, 150, 'statements with any flags, nested and continued')
    threads(ctx, 'l', ctx.n(2400, 40000), 150)
    ctx.need(ctx.extra.get('alternations', 0) > 20000, 'alternations between threads')
    ctx.need(ctx.extra.get('unfinished', 0) > 500, 'interrupted lines')


@prop('T02')
def t02(ctx):
    ctx.rule = RULE % (7, 250, 'changes of on/off state, margin, marker, colors and indentation between statements')
    threads(ctx, 'p', ctx.n(4800, 80000), 250)
    ctx.need(ctx.extra.get('channel_ops', 0) > 10000, 'channel changes')
    ctx.need(ctx.extra.get('string_ops', 0) > 5000, 'string changes')


@prop('T03')
def t03(ctx):
    ctx.rule = RULE % (10, 60, 'threads start others, exit, are joined or detached, with and without restoring their state') + '; leaks are checked at exit'
    threads(ctx, 'e', ctx.n(4800, 80000), 100)
    tls = build.program('tls', ['h_tls.cpp'], 'gasan')
    for order in 0, 1:
        ctx.harness(tls, [order, ctx.n(20, 500)], ctxname='tls-%d' % order, env={'LIBCWD_NO_STARTUP_MSGS': '1'})
    ctx.need(ctx.extra.get('threads', 0) > 2000, 'threads')


@prop('O01')
def o01(ctx):
    ctx.rule = RULE % (7, 150, 'the stream, the lock or both are replaced and the old ones are destroyed meanwhile')
    threads(ctx, 'o', ctx.n(4800, 80000), 150)
    ctx.need(ctx.extra.get('replaced', 0) > 1500, 'replacements')
    ctx.need(ctx.extra.get('destroyed_streams', 0) > 800, 'destroyed streams')


def fatal(ctx, mode, cases, ops, variants):
    total = sum(n for _, n in variants)
    per = max(1, cases // total)
    jobs = []
    for v, n in variants:
        exe = build.program('fatal', ['h_fatal.cpp'], v)
        for k in range(n):
            jobs.append(dict(exe=exe, args=[mode, ctx.seed, len(jobs) * per + len(jobs) % 2, per, ops], timeout=400 if not ctx.thorough else 800,
                             ctxname='fatal-%s-%s' % (mode, v), env={'LIBCWD_NO_STARTUP_MSGS': '1'}))
    ctx.harness_many(jobs)


@prop('E01')
def e01(ctx):
    ctx.rule = ('one case = a child process that runs a random history until a fatal statement at a random point (any depth, thread, object, flags), or up to six '
                'concurrent threads that are fatal at about the same time while others write; what arrived in each stream, the flushes and how the process ended are '
                'compared with the model; distinct: by the history, or by the order of the lines')
    fatal(ctx, 'f', ctx.n(8000, 80000), 80, (('plain', 4), ('gasan', 3), ('debug', 1)))
    fatal(ctx, 'x', ctx.n(4800, 60000), 80, (('plain', 4), ('tsan', 4)))
    ctx.need(ctx.extra.get('kind_0', 0) > 1000 and ctx.extra.get('kind_1', 0) > 1000, 'fatal statements')
    ctx.need(ctx.extra.get('several_fatal', 0) > 500, 'cases in which several threads wrote a fatal message')


@prop('E02')
def e02(ctx):
    ctx.rule = ('one case = a child process that runs a random history until a misuse of one of thirteen kinds at a random point; the message, that all earlier output '
                'is there, the way the process ends and the stream mutex are judged; distinct: by the history')
    fatal(ctx, 'm', ctx.n(8000, 80000), 80, (('plain', 4), ('gasan', 4)))
    ctx.need(all(ctx.extra.get('misuse_%d' % k, 0) > 50 for k in range(13)), 'every kind of misuse')
