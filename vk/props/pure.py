"""Pure functions and small classes, differential against models under sanitizers."""
from . import prop
from .. import build


def two(ctx, name, src, cases, args=(), variants=('gasan',)):
    for v in variants:
        exe = build.program(name, [src], v)
        ctx.harness(exe, [ctx.seed, cases] + list(args), timeout=600, ctxname=name)


@prop('M01')
def m01(ctx):
    ctx.rule = ('pairs of mask and name: all pairs up to length %d over {a,b,*}, then random pairs with masks derived from the '
                'name; non-trivial: both non-empty; judged by a dynamic-programming matcher; mask in an exact-size heap block'
                % ctx.n(4, 6))
    two(ctx, 'match', 'h_match.cpp', ctx.n(200000, 3000000), [ctx.n(4, 6)])
    ctx.need(ctx.extra.get('matching', 0) > 1000, 'matching pairs')


@prop('P01')
def p01(ctx):
    ctx.rule = ('all 256 characters and random buffers of 0..5000 bytes printed through streams with random format flags; '
                'an independent decoder must recover the bytes; non-trivial: more than one byte')
    two(ctx, 'print', 'h_print.cpp', ctx.n(60000, 1000000))


@prop('P02')
def p02(ctx):
    ctx.rule = 'errno values 0..4999, extremes and random unsigned values against strerrorname_np(); non-trivial: a name exists'
    two(ctx, 'errno', 'h_errno.cpp', ctx.n(100000, 2000000))
    ctx.need(ctx.distinct > 100, 'named errno values')


@prop('S01')
def s01(ctx):
    ctx.rule = ('sequences of 1..60 inserted ranges over small and large spans, sharing boundaries, at both ends of the address '
                'space; after every insertion every boundary address and its neighbours looked up; non-trivial: two or more ranges')
    two(ctx, 'ranges', 'h_ranges.cpp', ctx.n(30000, 600000))
    ctx.need(ctx.extra.get('covered_lookups', 0) > 10000, 'covered lookups')


@prop('L01')
def l01(ctx):
    ctx.rule = ('random histories over five pointers, single and array form, plus converting copies between base and derived; '
                'every object carries an id whose destructions are counted; non-trivial: more than a few operations')
    two(ctx, 'autoptr', 'h_autoptr.cpp', ctx.n(20000, 400000))


@prop('L02')
def l02(ctx):
    ctx.rule = ('random histories of creation, copy, move, swap, inhibition (nested, in blocks, deferred) over five pointers against counts kept by a model; then threads that race to drop '
                'their references to the same objects after a non-atomic write that the destructor must see; non-trivial: every history, every order of the last releases')
    for v in ('gasan', 'tsan', 'plain'):
        exe = build.program('refcount', ['h_refcount.cpp'], v)
        ctx.harness(exe, [ctx.seed, ctx.n(3000, 60000)], timeout=600, ctxname='refcount')
    ctx.need(ctx.extra.get('raced_objects', 0) > 1000, 'raced objects')
