"""G01: attach_gdb(); G02: what is printed at start-up and about loaded object files."""
import concurrent.futures, os, random, re, resource, shutil, stat
from . import prop
from .. import build, check

FAKE = '''#!/bin/sh
# Stands in for gdb: -n -x gdb.cmds /proc/PID/exe PID
n=$(cat count 2>/dev/null || echo 0); n=$((n+1)); echo $n > count
printf '%%s\\n' "$@" > args.$n
cp gdb.cmds cmds.$n 2>/dev/null
[ "$5" = "$(cat pid)" ] || exit 99
readlink "$4" > exe.$n
%s
'''
TERMS = ['%s', './term %s', 'exec %s', './term -e x %s', 'cd . && %s', '%s > term.out', './term %s &']


def gdb_case(ctx, exe, variant, k):
    r = random.Random('%d %d' % (ctx.seed, k))
    d = os.path.join(ctx.tmp, 'g%d' % k)
    os.makedirs(d)
    kind = r.choices(['ok', 'fail', 'limit', 'unread'], [54, 22, 20, 4])[0] if not FORCE else FORCE
    delay = r.choice([0, 0, .05, .15, .4, 1.2, 3.0])
    attaches = r.choice([1, 1, 2, 3]) if kind == 'ok' else 1
    offs = r.choice([0, 0, 0, 1, 3])
    threads = r.choice([0, 0, 1, 3]) if kind == 'ok' else 0
    silent = r.choice([0, 0, 1])
    chld = 0
    code = r.choice([0, 0, 1, 7, 42])
    term = r.choice(TERMS)
    body = 'sleep %s; echo attach >> log; kill -USR1 "$5"' % delay
    if kind == 'ok':
        how = r.choice(['now', 'late', 'background'])
        if how == 'late':
            body += '; sleep %s' % r.choice([.1, .5])
        elif how == 'background':
            body = '(%s) &' % body
        body += '\nexit %d' % code
    elif kind == 'fail':
        chld = r.random() < .3
        body = 'exit %d' % code
        term = r.choice(TERMS[:3])
    gdb, wrap = './gdb', []
    if kind == 'limit':
        body += '\nexit 0'
        gdb, term = '@', './term %s'
        # The length of the command depends on the number of digits of the process id: the shell that writes the rcfile becomes the process.
        if r.random() < .5:
            glen, tlen = r.choice([200, 240, 253, 254, 255, 255, 256, 256, 257, 258, 300, 500]), 0
        else:
            glen, tlen = r.choice([60, 150, 255]), r.choice([300, 500, 509, 510, 511, 511, 512, 512, 513, 514, 700])
        wrap = ['sh', '-c', 'p=$$; g=%d; t=%d; n=$((g-%d-2*${#p})); m=$((t-g-%d)); s() { [ "$1" -gt 0 ] && head -c "$1" /dev/zero | tr "\\0" /; }; '
                'printf "silent = on\ngdb = .%%s/gdb\nxterm = .%%s/term %%%%s\n" "$(s $n)" "$(s $m)" > rc; exec "$@"' %
                (glen, tlen, len('./gdb -n -x gdb.cmds /proc//exe '), len('./term ')), 'sh']
    for name, text in (('gdb', FAKE % body), ('term', '#!/bin/sh\n[ "$1" = -e ] && shift 2\nexec "$@"\n')):
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
        os.chmod(os.path.join(d, name), 0o755)
    missing = kind == 'fail' and r.random() < .3
    if missing:
        gdb = './nogdb'
    with open(os.path.join(d, 'rc'), 'w') as f:
        f.write('silent = on\ngdb = %s\nxterm = %s\n' % (gdb, term))
    fork_delay = r.choice([0, 0, 100, 400, 800])
    args = [0 if kind == 'unread' else 1, attaches, offs, threads, silent, int(chld), fork_delay]
    env = dict(LIBCWD_RCFILE_NAME=os.path.join(d, 'rc'), HOME=d)
    cmd = wrap + [exe] + [str(a) for a in args]
    desc = 'kind %s gdb %s xterm %s script {%s} args %s' % (kind, gdb, term, body.replace('\n', ' ; '), args)
    res = check.execute(cmd, 60, env, cwd=d)
    out = res.out.decode('latin-1')
    text = ''
    try:
        text = open(os.path.join(d, 'out.txt'), encoding='latin-1').read()
    except OSError:
        pass
    read = lambda n: open(os.path.join(d, n)).read() if os.path.exists(os.path.join(d, n)) else ''
    files = dict(count=read('count').strip(), log=read('log').count('attach'))
    for i in range(1, attaches + 1):
        files['args%d' % i] = read('args.%d' % i).split('\n')[:-1]
        files['cmds%d' % i] = read('cmds.%d' % i)
        files['exe%d' % i] = read('exe.%d' % i).strip()
    if wrap:
        gdb, term = re.findall(r' = (.*)', read('rc'))[1:]
        desc += ' gdb %s xterm %s' % (gdb, term)
    shutil.rmtree(d, ignore_errors=True)
    return dict(k=k, kind=kind, variant=variant, desc=desc, res=res, out=out, text=text, files=files, attaches=attaches, offs=offs, threads=threads, silent=silent,
                chld=chld, code=code, missing=missing, delay=delay, gdb=gdb, term=term, exe=exe, cmd=cmd)


FORCE = None


def judge_gdb(ctx, c):
    res, out, text, f = c['res'], c['out'], c['text'], c['files']
    what = 'case %d: %s\nexit %s\n--out--\n%s\n--debug output--\n%s\n--stderr--\n%s\nfiles %s' % (
        c['k'], c['desc'], res.rc, out[-1500:], text[-1500:], res.err[-1500:].decode('latin-1'), f)

    def bad(key):
        ctx.violation('%s:%s' % (c['kind'], key), what, c['desc'])
    if res.timed_out:
        return bad('hang')
    reps = check.sanitizer_reports(res.err)
    for k, body in reps:
        ctx.violation('gdb:' + k, body, c['desc'])
    if reps:
        return
    m = re.search(r'PID (\d+)', out)
    if not m:
        raise check.HarnessError('no start: ' + what)
    pid = m.group(1)
    kind = c['kind']
    command = '%s -n -x gdb.cmds /proc/%s/exe %s' % (c['gdb'], pid, pid)
    expect = 'ok'
    if kind == 'unread':
        expect = "'gdb' is empty"
    elif len(command) >= 256:
        expect = "'gdb' too long"
    elif len(c['term'].replace('%s', command)) >= 512:
        expect = "'xterm' too long"
    elif kind == 'fail':
        expect = 'Failed to start gdb'
    ctx.stat('expect ' + expect, 1)
    if kind == 'limit':
        n = len(command), len(c['term'].replace('%s', command))
        ctx.stat('just below the limit', int(n[0] == 255 or n[1] == 511))
        ctx.stat('at the limit', int(n[0] == 256 or n[1] == 512))
    ctx.count(1, (kind, expect, c['desc']))
    if expect == 'ok':
        if res.rc != 0 or 'DONE' not in out:
            return bad('died')
        if 'FATAL' in text or 'COREDUMP' in text:
            return bad('fatal')
        ends = re.findall(r'END (\d+) in=(\d) opcode=(-?\d+) signals=(\d+) hook=(-?\d+) same=(\d) wrote=(\d+) progress=(\d) t=([\d.]+)', out)
        if len(ends) != c['attaches']:
            return bad('calls')
        for i, inside, opcode, sig, hook, same, wrote, progress, t in ends:
            ctx.stat('attached', 1)
            if sig != '1':
                bad('attached-once')        # It went on without gdb, or twice.
            if hook != '0':
                bad('hook')
            if inside != '1' or opcode != '232':
                bad('breakpoint')
            if same != '1':
                bad('state')
            if progress != '2':
                bad('progress')
            if float(t) + .01 < c['delay']:
                bad('no-wait')
            if c['threads'] and c["delay"] >= 1.2 and wrote == '0':
                bad('threads-stopped')
        if f['count'] != str(c['attaches']) or f['log'] != c['attaches']:
            bad('runs')
        for i in range(1, c['attaches'] + 1):
            if f['args%d' % i] != ['-n', '-x', 'gdb.cmds', '/proc/%s/exe' % pid, pid]:
                bad('arguments')
            if os.path.realpath(f['exe%d' % i] or '?') != os.path.realpath(c['exe']):
                bad('exe')
            cm = f['cmds%d' % i].split('\n')
            if len(cm) != 4 or not re.fullmatch(r'b \*0x[0-9a-f]+', cm[0]) or not re.fullmatch(r'set \*\(int\*\)&libcwd_attach_gdb_hook ?= ?0', cm[1]) or cm[2:] != ['c', '']:
                bad('commands')
        m = re.search(r'OFFS (\d+)', out)
        if not m or int(m.group(1)) != c['offs']:
            bad('off-count')
        n = text.count('ATTACHED!')
        if n != (0 if c['offs'] else c['attaches']):
            bad('announced')
        if not c['offs'] and text.count('Executing "%s"' % c['term'].replace('%s', command)) != c['attaches']:
            bad('announced-command')
        if 'the last line' not in text:
            bad('goes-on')
    else:
        if 'END 0' in out or 'DONE' in out or res.rc == 0:
            return bad('goes-on')
        if expect not in text:
            return bad('message')
        if expect != 'Failed to start gdb':
            if f['count']:
                bad('executed')
            return
        if 'ATTACHED' in text:
            bad('announced')
        m = re.search(r"terminated with exit code (\d+)", text)
        # When SIGCHLD is ignored the status is not known, and neither is it for the shell that runs the command.
        codes = {127 if c['missing'] else c['code']}
        if c['chld']:
            codes |= {255}
            ctx.stat('ignored_sigchld', 1)
        elif not m:
            bad('no-exit-code')
        if m and int(m.group(1)) not in codes:
            bad('exit-code')
        if res.wall < 5:
            bad('too-early')


@prop('G01')
def g01(ctx):
    ctx.rule = ('one case = a child process that calls attach_gdb() up to three times, with a script for gdb and one for the terminal that attach at once, later, from the background, '
                'or that fail, with commands around the maximum length, with debugging on and off and other threads writing; distinct: by the configuration')
    jobs = []
    for k in range(ctx.n(240, 2400)):
        jobs.append(('plain' if k % 2 else 'gasan', k))
    exes = {v: build.program('gdb', ['h_gdb.cpp'], v) for v in ('plain', 'gasan')}
    with concurrent.futures.ThreadPoolExecutor(24) as ex:
        for c in ex.map(lambda j: gdb_case(ctx, exes[j[0]], j[0], j[1]), jobs):
            judge_gdb(ctx, c)
    ctx.need(ctx.violations or ctx.extra.get('attached', 0) > 150, 'attached')
    ctx.need(ctx.violations or ctx.extra.get('expect Failed to start gdb', 0) > 20, 'failures')
    ctx.need(ctx.violations or ctx.extra.get("expect 'gdb' too long", 0) > 5, 'too long')
    ctx.need(ctx.violations or (ctx.extra.get('at the limit', 0) > 3 and ctx.extra.get('just below the limit', 0) > 3), 'commands at the limit')


# -- G02

def parse_sections(text):
    parts = re.split(r'\n@@ (main|\d+)\n', text)
    res = {'pre': parts[0]}
    for i in range(1, len(parts), 2):
        res[parts[i]] = parts[i + 1]
    return res


TRACE = [('new', re.compile(r'new ObjectFile "([^"]*)" with load base 0x([0-9a-f]+)')),
         ('gone', re.compile(r'destroying ObjectFile "([^"]*)"')),
         ('add', re.compile(r'map\[0x([0-9a-f]+)\] = PTLoadSegment .*\[0x([0-9a-f]+)-0x([0-9a-f]+)\) flags=([R-][W-][X-])')),
         ('removed', re.compile(r'removing map\[0x([0-9a-f]+)\]')),
         ('adding', re.compile(r'Adding PT_LOAD segments for "([^"]*)" at 0x([0-9a-f]+)'))]


def trace(text):
    t = dict(new=[], gone=[], add=[], removed=[], adding=[], other=[])
    for l in text.split('\n'):
        if not l.strip():
            continue
        for n, rx in TRACE:
            if n == 'add' and 'removing' in l:
                continue
            m = rx.search(l)
            if m:
                t[n].append(m.groups())
                break
        else:
            t['other'].append(l)
    return t


def c_library(d, name, needs, flags):
    src = os.path.join(d, name + '.c')
    with open(src, 'w') as f:
        f.write('int %s_data[%d] = {1}; int %s_fun(void) { return %s_data[0]; }\n' % (name, random.Random(name).choice([1, 3000, 100000]), name, name))
    so = os.path.join(d, 'lib%s.so' % name)
    build.run(['gcc', '-shared', '-fPIC', src, '-o', so, '-Wl,-soname,lib%s.so' % name, '-L' + d, '-Wl,-rpath,$ORIGIN', '-Wl,--no-as-needed'] + ['-l' + x for x in needs] + list(flags))
    return so


def trace_case(ctx, exe, variant, libs, k):
    r = random.Random('%d t %d' % (ctx.seed, k))
    env = dict(LIBCWD_RCFILE_NAME='/dev/null')
    no, pl = r.choice([(0, 0), (0, 1), (0, 1), (1, 0), (1, 1)])
    if no:
        env['LIBCWD_NO_STARTUP_MSGS'] = r.choice(['1', '', '0'])
    if pl:
        env['LIBCWD_PRINT_LOADING'] = r.choice(['1', '', '0'])
    ops, handles, do, opened = [], 0, 0, []
    elf = None
    for _ in range(r.randrange(0, 14)):
        x = r.random()
        if x < .4:
            ops.append(r.choice('LNG') + r.choice(libs + ['/nonexistent/lib.so'] if r.random() < .9 else ['libm.so.6', 'libc.so.6']))
            opened.append(handles)
            handles += 1
        elif x < .6 and opened:
            ops.append('C%d' % opened.pop(r.randrange(len(opened))))
        elif x < .75:
            o = r.choice(['+o', '-o'])
            if o == '+o' and do < 0:
                o = '-o'
            do += 1 if o == '-o' else -1
            ops.append(o)
        elif x < .9:
            ops.append(r.choice(['+e', '-e']))
        else:
            ops.append('=')
    # A surplus on() is not used.
    cnt, fixed = 0, []
    for o in ops:
        if o == '+e':
            if cnt < 0:
                o = '-e'
        if o in ('+e', '-e'):
            cnt += 1 if o == '-e' else -1
        fixed.append(o)
    ops = fixed
    hard0 = resource.getrlimit(resource.RLIMIT_CORE)[1]
    cap = (1 << 40) if hard0 == resource.RLIM_INFINITY else hard0
    hard = r.choice([0, 0, hard0, 1024 * r.randrange(1, 5000), 1, 1023, 1024])
    if hard0 != resource.RLIM_INFINITY and (hard == resource.RLIM_INFINITY or hard > cap):
        hard = hard0
    soft = r.choice([0, hard]) if hard == resource.RLIM_INFINITY else r.choice([0, hard // 2, hard])
    ul = lambda v: 'unlimited' if v == resource.RLIM_INFINITY else str(v)
    pre = ['prlimit', '--core=%s:%s' % (ul(soft), ul(hard))]
    cmd = pre + [exe] + ops
    desc = 'NO_STARTUP_MSGS %d PRINT_LOADING %d core %s:%s %s: %s' % (no, pl, ul(soft), ul(hard), variant, ' '.join(ops))
    if 'asan' in variant:
        env['ASAN_OPTIONS'] = check.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
    res = check.execute(cmd, 60, env, cwd=ctx.tmp)
    return dict(no=no, pl=pl, ops=ops, hard=hard, soft=soft, desc=desc, res=res, exe=exe)


def judge_trace(ctx, c):
    res = c['res']
    out, err = res.out.decode('latin-1'), res.err.decode('latin-1')
    what = '%s\nexit %s\n--stderr--\n%s\n--stdout--\n%s' % (c['desc'], res.rc, err[-6000:], out[-3000:])

    def bad(key, extra=''):
        ctx.violation('trace:' + key, extra + '\n' + what, c['desc'])
    reps = check.sanitizer_reports(res.err)
    for k, body in reps:
        ctx.violation('trace:' + k, body, c['desc'])
    if reps:
        return
    if res.rc != 0 or 'DONE' not in out:
        if res.rc in (126, 127) or 'prlimit' in err:
            raise check.HarnessError(what)
        return bad('died')
    m = re.search(r'CORE (\d+) (\d+)', out)
    unl = (1 << 64) - 1
    num = lambda v: unl if v == resource.RLIM_INFINITY else v
    if int(m.group(2)) != num(c['hard']) or int(m.group(1)) != num(c['hard']):
        bad('core-limit')
    sec = parse_sections(err)
    # The loader's list at every section.
    lists, states, cur = [], [], None
    for l in out.split('\n'):
        if l.startswith('SECTION'):
            m = re.match(r'SECTION \d+ (\S+) do=(\d) elf=(\d)', l)
            states.append((m.group(1), m.group(2) == '1', m.group(3) == '1'))
            lists.append({})
        elif l.startswith('OBJ'):
            f = l.split(' ')
            segs = []
            while len(f) > 3 and re.fullmatch(r'[0-9a-f]+:[0-9a-f]+:[0-9a-f]+', f[-1]):
                segs.append(f.pop())
            lists[-1][(int(f[1], 16), ' '.join(f[2:]))] = tuple(sorted(tuple(int(x, 16) for x in s.split(':')) for s in segs))
    n = len(c['ops']) + 1
    if len(lists) != n or any(str(i) not in sec for i in range(n)):
        raise check.HarnessError('sections ' + what)
    forced = c['pl'] and not c['no']
    count, ecount = 0, 0
    name = lambda k: os.path.realpath(c['exe']) if k[1] == '-' else os.path.realpath(k[1]) if '/' in k[1] else k[1]
    for i in range(n):
        # The output of operation i is what was written before section i.
        text = sec['pre'] + '\n' + sec['main'] if i == 0 else sec[str(i - 1)]
        if i == 0 and c['no'] and text.strip():
            bad('not-suppressed')
        op = c['ops'][i - 1] if i else ''
        traced = forced or (i and count < 0 and ecount < 0)
        before = lists[i - 1] if i else {}
        new = {k: v for k, v in lists[i].items() if k not in before or before[k] != v}
        gone = {k: v for k, v in before.items() if k not in lists[i] or lists[i][k] != v}
        t = trace(text)
        ctx.count(1, (op[:1], traced, len(new), len(gone), i == 0, c['pl'], c['no'], count, ecount, c['hard'] if i == 0 else 0))
        if traced and (new or gone):
            ctx.stat('traced', len(new) + len(gone))
            key = lambda base, path: (base, os.path.basename(path))
            got = sorted(key(int(b, 16), os.path.realpath(p) if '/' in p else p) for p, b in t['new'])
            want = sorted(key(k[0], name(k)) for k in new)
            if got != want:
                bad('loaded', 'section %d: traced %s, loaded %s' % (i, got, want))
            fl = lambda x: ('R' if x & 4 else '-') + ('W' if x & 2 else '-') + ('X' if x & 1 else '-')
            want = sorted((s[1], s[0], fl(s[2])) for v in new.values() for s in v)
            if sorted((int(a[0], 16), int(a[1], 16), a[3]) for a in t['add']) != want or any(a[0] != a[2] for a in t['add']):
                bad('segments', 'section %d: %s, wanted %s' % (i, t['add'], want))
            if sorted(t['adding']) != sorted(t['new']):
                bad('segments-of', 'section %d: %s, loaded %s' % (i, t['adding'], t['new']))
            if sorted(os.path.basename(p[0]) for p in t['gone']) != sorted(os.path.basename(name(k)) for k in gone):
                bad('unloaded', 'section %d: %s, wanted %s' % (i, t['gone'], list(gone)))
            if sorted(int(x[0], 16) for x in t['removed']) != sorted(s[1] for v in gone.values() for s in v):
                bad('removed-segments', 'section %d' % i)
        elif t['new'] or t['gone'] or t['add'] or t['removed']:
            bad('trace-unwanted', 'section %d (%s)' % (i, op))
        other = t['other']
        if i == 0:
            warn = [l for l in other if 'core size is limited' in l]
            other = [l for l in other if l not in warn]
            want = c['hard'] not in (0, resource.RLIM_INFINITY) and not c['no']
            if len(warn) != int(want):
                bad('core-warning')
            elif want:
                ctx.stat('core_warnings', 1)
                m = re.search(r'hard limit: (\d+) kb', warn[0])
                if not m or int(m.group(1)) != c['hard'] // 1024 or not warn[0].startswith('WARNING'):
                    bad('core-warning-text')
        elif op == '=':
            if other != (['NOTICE  : vk line'] if count < 0 else []):
                bad('line', 'section %d: %s' % (i, other))
            other = []
        if other and not (traced and i):
            bad('unexpected-output', 'section %d (%s): %s' % (i, op, other))
        if op in ('+o', '-o'):
            count += 1 if op == '-o' else -1
        if op in ('+e', '-e'):
            ecount += 1 if op == '-e' else -1
        if states[i][1] != (count < 0) or states[i][2] != (ecount < 0):
            bad('state', 'section %d (%s): %s' % (i, op, states[i]))


@prop('G02')
def g02(ctx):
    ctx.rule = ('one case = what is written to stderr until main, or by one operation (dlopen, dlclose, turning things on or off, writing a line) of a random history, with random environment '
                'variables, limits of the core size and generated libraries; distinct: by the operation, what was loaded and unloaded, the state and the environment')
    d = os.path.join(ctx.tmp, 'libs')
    os.makedirs(d)
    libs = [c_library(d, 'one', [], []), c_library(d, 'two', ['one'], []), c_library(d, 'three', ['two', 'one'], []),
            c_library(d, 'stay', [], ['-Wl,-z,nodelete']), c_library(d, 'four', ['stay'], []), c_library(d, 'relro', [], ['-Wl,-z,separate-code', '-Wl,-z,relro'])]
    exes = {('plain', l): build.program('trace', ['h_trace.cpp'], 'plain', link=l) for l in ('static', 'shared')}
    exes[('gasan', 'static')] = build.program('trace', ['h_trace.cpp'], 'gasan')
    keys = sorted(exes)
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        for c in ex.map(lambda k: trace_case(ctx, exes[keys[k % 3]], '%s %s' % keys[k % 3], libs, k), range(ctx.n(1500, 20000))):
            judge_trace(ctx, c)
    ctx.need(ctx.violations or ctx.extra.get('traced', 0) > 1000, 'traced object files')
    if resource.getrlimit(resource.RLIMIT_CORE)[1] != 0:
        ctx.need(ctx.violations or ctx.extra.get('core_warnings', 0) > 50, 'core size warnings')
    else:
        ctx.extra['note'] = 'the core size is limited to 0 here: the warning about it was not tested'
