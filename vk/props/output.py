"""Histories of debug statements in step with a reference model of the documented output."""
from . import prop
from .. import build


def scripts(ctx, mode, runs, ops, variants=(('gasan', 6), ('debug', 1), ('asan', 1))):
    jobs = []
    shard = 0
    exes = [(build.program('script', ['h_script.cpp'], v), n) for v, n in variants]
    total = sum(n for _, n in exes)
    per = max(1, runs // total)
    for exe, n in exes:
        for k in range(n):
            label = (16, 9, 1, 12)[shard % 4]
            jobs.append(dict(exe=exe, args=[mode, ctx.seed, shard * per, per, ops, label], timeout=400, ctxname='script-' + mode,
                             env={'LIBCWD_NO_STARTUP_MSGS': '1'}))
            shard += 1
    ctx.harness_many(jobs)


RULE = ('one case = one random history of about %d operations (%s), the real output, flushes, strings, indentation and on/off state '
        'compared with the model after every operation; non-trivial: at least one line written; distinct: by the written text')


@prop('F01')
def f01(ctx):
    ops = 250
    ctx.rule = RULE % (ops, 'statements with any set of control flags, string and channel changes')
    scripts(ctx, 'f', ctx.n(8000, 120000), ops)
    ctx.need(ctx.extra.get('lines', 0) > 20000, 'lines')


@prop('F02')
def f02(ctx):
    ops = 250
    ctx.rule = RULE % (ops, 'continued, nested and finishing statements')
    scripts(ctx, 'n', ctx.n(8000, 120000), ops)
    ctx.need(ctx.extra.get('unfinished', 0) > 2000, 'interrupted lines')
    ctx.need(ctx.extra.get('nested', 0) > 2000, 'nested statements')


@prop('F03')
def f03(ctx):
    ops = 250
    ctx.rule = RULE % (ops, 'assign, append, prepend, reserve, push and pop of margin, marker and color strings')
    scripts(ctx, 's', ctx.n(6000, 80000), ops)
    ctx.need(ctx.extra.get('string_ops', 0) > 20000, 'string operations')


@prop('C01')
def c01(ctx):
    ops = 250
    ctx.rule = RULE % (ops, 'on, off, force_on, restore and statements over sets of channels')
    scripts(ctx, 'c', ctx.n(8000, 120000), ops)
    ctx.need(ctx.extra.get('off_statements', 0) > 5000, 'statements that are off')
    ctx.need(ctx.extra.get('lines', 0) > 5000, 'lines')


@prop('T04')
def t04(ctx):
    ops = 300
    ctx.rule = RULE % (ops, 'statements of one to four threads that take turns, also in the middle of a statement, and come and go')
    scripts(ctx, 't', ctx.n(6000, 80000), ops)
    ctx.need(ctx.extra.get('thread_switches', 0) > 5000, 'thread switches')
    ctx.need(ctx.extra.get('no_newline', 0) > 500, 'closed lines')
