"""N01: the macros as statements, and without CWDEBUG."""
import concurrent.futures, os, re, shutil, subprocess
from . import prop
from .. import build, check
from ..gen import libs, macros

DLINE = re.compile(r'^([A-Z][A-Z0-9]*) *: ( *)(.*)$')


def parse(text, errtext, debug, rc, flags):
    """The events that a run shows, in the terms of macros.Run."""
    out = []
    for l in text.split('\n'):
        if l == '' or l == 'END':
            continue
        if l.startswith('P '):
            _, tag, v = l.split(' ')
            out.append(('P', tag, int(v)))
        elif l.startswith('E '):
            continue
        else:
            out.append(('D', l))
    return out


def render(ev, width):
    """The line that a debug event must be."""
    if ev[0] != 'D':
        return ev
    _, label, ind, t = ev
    if label is None:
        return ('D', t)
    return ('D', (label.ljust(width) + ': ' if label else '') + ' ' * ind + t)


def compile_one(ctx, d, k, text, cxx, debug, libs):
    src = os.path.join(d, 'p%d.cpp' % k)
    exe = os.path.join(d, 'p%d.%s.%d' % (k, cxx, debug))
    if not os.path.exists(src):
        with open(src, 'w') as f:
            f.write(text)
    if debug:
        cmd = [cxx, '-std=c++20', '-w', '-O0', '-DCWDEBUG'] + build.include_flags('plain') + [src, libs, '-Wl,-rpath,' + os.path.dirname(libs), '-o', exe]
    else:
        # Only nodebug.h of the tree.
        cmd = [cxx, '-std=c++20', '-w', '-O0', '-I' + d, src, '-o', exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return exe, r.returncode, r.stdout


@prop('N01')
def n01(ctx):
    ctx.rule = ('one case = one run of an entry of a generated program (macros as sub-statements of if/else, loops, switch, labels, lambdas, templates, members; nested in arguments; '
                'variables named like what a macro could declare) compiled with and without CWDEBUG by g++ and clang++; the complete transcript is compared with that of an interpreter; '
                'distinct: by transcript; non-trivial: more than two debug lines')
    n, entries = ctx.n(20, 160), 24
    so = build.shared_lib('plain')
    d = os.path.join(ctx.tmp, 'n')
    os.makedirs(d)
    # The documented way to use the stand-ins of the macros is a copy of nodebug.h.
    with open(os.path.join(build.REPO, 'nodebug.h')) as f, open(d + '/nodebug.h', 'w') as g:
        g.write(f.read())
    progs = [macros.program('%d %d' % (ctx.seed, k), entries) for k in range(n)]
    jobs = [(k, c, dbg) for k in range(n) for c in ('g++', 'clang++') for dbg in (1, 0)]
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        def comp(j):
            return j, compile_one(ctx, d, j[0], progs[j[0]][0], j[1], j[2], so)
        built = list(ex.map(comp, jobs))
        runs = []
        for (k, c, dbg), (exe, rc, msg) in built:
            if rc:
                first = next((l for l in msg.split('\n') if 'error' in l), msg[:300])
                kind = re.sub(r'\d+', 'N', re.sub(r'^[^:]*:\d+:\d+: ', '', first))
                ctx.violation('compile:%s:%s' % ('debug' if dbg else 'nodebug', kind[:90]), msg[:2500], replay(ctx, k))
                continue
            if not dbg:
                sy = subprocess.run(['nm', '-uC', exe], stdout=subprocess.PIPE, text=True).stdout
                if 'libcwd' in sy:
                    ctx.violation('nodebug:symbols', sy, replay(ctx, k))
                ctx.stat('programs_without_library', 1)
            for i in range(entries):
                runs.append((k, c, dbg, exe, i))
        res = list(ex.map(lambda r: check.execute([r[3], str(r[4])], timeout=60, cwd=d), runs))
        # A fatal statement also ends the process, and in the same way, when its message can't be written.
        fatal = [(r, how) for r in runs for how in ('>/dev/full 2>/dev/full', '>&- 2>&-', '2>/dev/full') if progs[r[0]][1][r[4]]['want'][bool(r[2])][1] is not None]
        fatal_res = list(ex.map(lambda f: check.execute(['sh', '-c', 'exec "$0" "$1" ' + f[1], f[0][3], str(f[0][4])], timeout=60, cwd=d), fatal))
    for ((k, c, dbg, exe, i), how), r in zip(fatal, fatal_res):
        end = progs[k][1][i]['want'][bool(dbg)][1]
        want = 1 if not dbg else 180 if end == 'fatal' else -6
        ctx.count(1, None)
        ctx.stat('ends_without_output', 1)
        if r.rc != want:
            ctx.violation('%s:end-without-output:%s' % ('debug' if dbg else 'nodebug', end), '%s, entry %d, compiler %s, %s\nexit status %r, expected %r' % (replay(ctx, k), i, c, how, r.rc, want), replay(ctx, k))
    for (k, c, dbg, exe, i), r in zip(runs, res):
        want, end = progs[k][1][i]['want'][bool(dbg)]
        name = 'debug' if dbg else 'nodebug'
        src = '%s, entry %d (ns%d), compiler %s, %s' % (replay(ctx, k), i, progs[k][1][i]['id'], c, name)
        width = 8
        got = parse(r.out.decode('latin-1'), r.err, dbg, r.rc, None)
        exp = [render(e, width) for e in want if e[0] != 'F']
        ctx.count(1, r.out if sum(e[0] == 'D' for e in got) > 2 or (not dbg and len(got) > 2) else None)
        ctx.stat('debug_lines', sum(e[0] == 'D' for e in got))
        ctx.stat('program_lines', sum(e[0] == 'P' for e in got))
        if got != exp:
            j = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
            def kind(l):
                return l[j][0] if j < len(l) else 'end'
            ctx.violation('%s:transcript:%s-for-%s' % (name, kind(got), kind(exp)),
                          '%s\nevent %d\nexpected: %r\ngot:      %r\nbefore: %r\nexit %r, stderr %s' % (src, j, exp[j:j + 3], got[j:j + 3], exp[max(0, j - 3):j], r.rc, r.err[-400:].decode('latin-1')), src)
            continue
        if end is None:
            ok = r.rc == 0 and r.err == b''
        elif not dbg:
            ok = r.rc == 1 and r.err.decode('latin-1') == want[-1][1] + '\n' and want[-1][0] == 'F'
        elif end == 'fatal':
            ok = r.rc == 180
        else:
            ok = r.rc == -6
        ctx.stat('ends_%s_%s' % (name, end), 1)
        if not ok:
            ctx.violation('%s:end:%s' % (name, end), '%s\nexit status %r, expected end: %r\nstderr: %r\nexpected events: %r' % (src, r.rc, end, r.err[-600:], want[-2:]), src)
        if dbg and len(got) > 6:
            ctx.sample(' | '.join(str(e[-1]) for e in got[:6]))
    ctx.need(ctx.violations or ctx.extra.get('debug_lines', 0) > 500, 'debug lines')
    for x in ('debug_fatal', 'debug_core', 'nodebug_fatal', 'nodebug_None', 'debug_None'):
        ctx.need(ctx.violations or ctx.extra.get('ends_' + x, 0) > 3, 'ends ' + x)


def replay(ctx, k):
    return "python3 -c \"from vk.gen import macros; print(macros.program('%d %d', 24)[0])\" in /verif" % (ctx.seed, k)


def compile_project(d, p, k, cxx, debug, so):
    root = os.path.join(d, 'x%d' % k)
    objs = []
    exe = os.path.join(root, 'prog.%s.%d' % (cxx, debug))
    for src, inc in p.units:
        o = os.path.join(root, '%s.%s.%d.o' % (os.path.basename(src), cxx, debug))
        cmd = [cxx, '-std=c++20', '-w', '-O0', '-I' + os.path.join(root, inc), '-I' + root]
        cmd += ['-DCWDEBUG'] + build.include_flags('plain') if debug else ['-I' + d]
        r = subprocess.run(cmd + ['-c', os.path.join(root, src), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            return exe, r.returncode, r.stdout
        objs.append(o)
    r = subprocess.run([cxx, '-o', exe] + objs + ([so, '-Wl,-rpath,' + os.path.dirname(so)] if debug else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return exe, r.returncode, r.stdout


@prop('N04')
def n04(ctx):
    ctx.rule = ('one case = one line that a generated project (libraries with debug channels in namespaces of their own, that use and hide those of each other, with macros of their own in headers, '
                'and an application with its own debug.h and debug object) writes, compared with the documented lookup of the channel; compiled with and without CWDEBUG by g++ and clang++; '
                'distinct: by label, object and text')
    n = ctx.n(20, 200)
    so = build.shared_lib('plain')
    d = os.path.join(ctx.tmp, 'n')
    os.makedirs(d)
    shutil.copy(os.path.join(build.REPO, 'nodebug.h'), d)
    projects = [libs.Project('%d %d' % (ctx.seed, k)) for k in range(n)]
    for k, p in enumerate(projects):
        for f, text in p.files.items():
            f = os.path.join(d, 'x%d' % k, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'w') as g:
                g.write(text)
    jobs = [(k, c, dbg) for k in range(n) for c, dbg in ((('g++', 1), ('clang++', 1), ('g++', 0)) if k % 3 else (('g++', 1), ('clang++', 1), ('g++', 0), ('clang++', 0)))]
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        res = list(ex.map(lambda j: compile_project(d, projects[j[0]], j[0], j[1], j[2], so), jobs))
    for (k, cxx, dbg), (exe, rc, msg) in zip(jobs, res):
        p = projects[k]
        name = 'debug' if dbg else 'nodebug'
        what = "python3 -c \"from vk.gen import libs; [print('==', f, t, sep='\\\\n') for f, t in libs.Project('%d %d').files.items()]\" in /verif, %s, %s" % (ctx.seed, k, cxx, name)
        if rc:
            first = next((l for l in msg.split('\n') if 'error' in l), msg[:300])
            kind = re.sub(r'\d+', 'N', re.sub(r'^[^:]*:\d+:\d+: ', '', first))
            ctx.violation('libs:compile:%s:%s' % (name, kind[:90]), what + '\n' + msg[:2500], what)
            continue
        if not dbg:
            sy = subprocess.run(['nm', '-uC', exe], stdout=subprocess.PIPE, text=True).stdout
            if 'libcwd' in sy:
                ctx.violation('libs:nodebug:symbols', sy, what)
        r = check.execute([exe], timeout=60, cwd=d)
        got = r.out.decode('latin-1').split('\n')[:-1]
        want, regs = [], []
        if dbg:
            for e in p.exp:
                if isinstance(e, str):
                    regs.append(re.escape(e))
                    continue
                obj, label, cf, text = e
                m = 'MY>' if obj == 'my' else ''
                lab = '' if 'nolabel' in cf else ' *:? ?' if 'blank' in cf else label.ljust(p.width) + ': '
                regs.append(re.escape(m) + (lab if 'blank' in cf else re.escape(lab)) + re.escape(text))
            if p.end is None:
                regs.append('END')
            else:
                regs.append(('MY>' if p.end == 'My' else '') + 'FATAL'.ljust(p.width) + ': the end')
            code = 0 if p.end is None else 180
        else:
            regs = ['N 0'] * sum(isinstance(e, str) for e in p.exp) + ['END'] * (p.end is None)
            code = 0 if p.end is None else 1
        for l in got:
            ctx.count(1, (dbg, l))
        ctx.stat('lines_' + name, len(got))
        bad = next((i for i in range(max(len(got), len(regs))) if i >= len(got) or i >= len(regs) or not re.fullmatch(regs[i], got[i])), None)
        if bad is not None:
            ctx.violation('libs:%s:line' % name, '%s\nline %d\nexpected %r\ngot      %r\nexit %s stderr %r' % (what, bad, regs[bad:bad + 3], got[bad:bad + 3], r.rc, r.err[-500:]), what)
        elif r.rc != code or (dbg and r.err) or (not dbg and r.err != (b'' if p.end is None else b'the end\n')):
            ctx.violation('libs:%s:end' % name, '%s\nexit %s, expected %s, stderr %r' % (what, r.rc, code, r.err[-500:]), what)
        if dbg:
            ctx.stat('libraries', len(p.libs))
            ctx.stat('hidden_names', sum(1 for l in p.libs for x in l['space'].own if any(x in u.names() for u in l['space'].uses)))
    ctx.need(ctx.violations or ctx.extra.get('lines_debug', 0) > 200, 'lines')
    ctx.need(ctx.violations or ctx.extra.get('hidden_names', 0) > 10, 'hidden names')
