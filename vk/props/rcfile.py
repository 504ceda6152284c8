"""R01: the rcfile against a model of its documented grammar."""
import os, random, re, shutil
from . import prop
from .. import build, check

BL = ' \t\n\v'
SEP = ', \t\n\v'
BUILTIN = ['DEBUG', 'ELFUTILS', 'NOTICE', 'SYSTEM', 'WARNING']


def find_first_not(s, cs):
    for i, c in enumerate(s):
        if c not in cs:
            return i
    return len(s)


def mask_match(mask, label):
    """Does the mask with wildcards match all of label?"""
    row = {0}
    for m in mask:
        if m == '*':
            row = set(range(min(row), len(label) + 1)) if row else set()
        else:
            row = {i + 1 for i in row if i < len(label) and label[i] == m}
    return len(label) in row


def upper(s):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s)


class Fatal(Exception):
    pass


class Model:
    def __init__(self, channels):
        self.ch = channels          # [label, count] in order of label
        self.gdb = self.xterm = ''
        self.warnings, self.turned, self.lines, self.own_values = [], [], [], []
        self.read_called = False

    def get(self, label):
        return [c for c in self.ch if c[0] == label]

    def on(self, c):
        return c[1] < 0

    def all_on(self):
        for c in self.ch:
            if c[0].split(' ')[0] != 'ELFUTILS':
                c[1] = -1
        self.elf = True

    def all_off(self, warning):
        for c in self.ch:
            if c[1] < 0:
                c[1] = 0
        if warning:
            self.ch[self.builtin_warning][1] -= 1
        self.elf = False

    def say(self, t):
        if self.loud:
            self.turned.append(t)

    def process(self, value, action):
        masks = [m for m in re.split('[%s]' % SEP, value) if m]
        for m in masks:
            m = upper(m)
            for c in self.ch:
                label = upper(c[0].split(' ')[0])
                if not mask_match(m, label):
                    continue
                if label == 'ELFUTILS':
                    if not self.elf and action != 'off':
                        self.elf = True
                        self.say('Turned on ELFUTILS')
                    elif self.elf and action != 'on':
                        self.elf = False
                        if c[1] < 0:
                            c[1] = 0
                        self.say('Turned off ELFUTILS')
                elif c[1] >= 0 and action != 'off':
                    for _ in range(c[1] + 1):
                        self.say('Turned on ' + label)
                    c[1] = -1
                elif c[1] < 0 and action != 'on':
                    c[1] = 0
                    self.say('Turned off ' + label)

    def read(self, files, own):
        """files: list of (name, bytes or None)"""
        self.loud = True
        self.elf = any(self.on(c) for c in self.ch if c[0] == 'ELFUTILS' and c[2])
        default_line = [0, 0]
        default_on = None
        for k, (name, text) in enumerate(files):
            did_reset = False
            lines = (text or b'').decode('latin-1').split('\n')
            if lines and lines[-1] == '':
                lines.pop()
            for n, line in enumerate(lines, 1):
                line = line.strip(BL)
                if not line or line[0] == '#':
                    continue
                if '=' not in line or line[0] == '=':
                    raise Fatal('read_rcfile: %s:%d: syntax error.' % (name, n))
                key, value = line.split('=', 1)
                key = re.split('[%s=]' % BL, key)[0]
                value = value.strip(BL)
                if key == 'silent':
                    if value == 'on':
                        self.loud = False
                    elif value == 'off':
                        self.loud = True
                    continue
                if self.loud:
                    self.lines.append('%s:%d: %s = %s' % (name, n, key, value))
                if key == 'gdb':
                    self.gdb = value
                elif key == 'xterm':
                    self.xterm = value
                elif key == 'channels_default':
                    if default_line[k]:
                        self.warn('rcfile: %s:%d: channels_default already set in line %d!  Entry ignored!' % (name, n, default_line[k]))
                        continue
                    default_line[k] = n
                    if value == 'on':
                        if self.loud:
                            self.lines.append('Turning all channels on by default.')
                        self.all_on()
                        default_on = True
                    elif value == 'off':
                        if self.loud:
                            self.lines.append('Turning all channels off by default.')
                        self.all_off(False)
                        default_on = False
                    else:
                        raise Fatal('read_rcfile: %s:%d: syntax error.' % (name, n))
                elif key == 'channels_toggle':
                    if not default_line[k] and not default_line[0]:
                        raise Fatal('read_rcfile: %s:%d: channels_toggle used before channels_default.' % (name, n))
                    self.process(value, 'toggle')
                elif key == 'channels_on':
                    # The first in an override file starts from nothing.
                    if k == 1 and not did_reset and default_on in (None, True):
                        if self.loud:
                            self.lines.append('Turning all channels%s off by default.' % (', except WARNING,' if default_on is None else ''))
                        self.all_off(default_on is None)
                        did_reset = True
                    self.process(value, 'on')
                elif key == 'channels_off':
                    if k == 1 and not did_reset and default_on is False:
                        if self.loud:
                            self.lines.append('Turning all channels on by default.')
                        self.all_on()
                        did_reset = True
                    self.process(value, 'off')
                elif own and key == 'mine':
                    self.own_values.append(value)
                else:
                    self.warn("read_rcfile: %s:%d: Unknown keyword '%s'." % (name, n, key), force=True)
        if self.elf:
            for c in self.ch:
                if c[2] and c[0] == 'ELFUTILS':
                    c[1] = min(c[1], -1)
        self.read_called = True

    def warn(self, t, force=False):
        # A message of a channel that is off more than once is not forced, except for unknown keywords.
        w = self.ch[self.builtin_warning]
        if force or w[1] <= 0:
            self.warnings.append(t)


def gen_value(rng, labels, good):
    def mask():
        l = rng.choice(labels)
        k = rng.randrange(9)
        if k < 4:
            m = l
        elif k == 4:
            m = l[:rng.randrange(len(l) + 1)] + '*'
        elif k == 5:
            m = '*' + l[rng.randrange(len(l) + 1):]
        elif k == 6:
            i = rng.randrange(len(l) + 1)
            m = l[:i] + '*' + l[rng.randrange(i, len(l) + 1):]
        elif k == 7:
            m = rng.choice(['*', '**', '*a*', '*E*', '?', 'NO', 'nosuch', l + 'x', '*' + l[:2] + '*' + l[-1:]])
        else:
            m = ''.join(c if rng.random() < .8 else rng.choice('*aE_') for c in l)
        return ''.join(c.swapcase() if rng.random() < .4 else c for c in m)
    sep = rng.choice([',', ', ', ' ', ' ,', ',,', '\t', ' , \v'])
    return sep.join(mask() for _ in range(rng.choice([1, 1, 2, 3, 6])))


def gen_file(rng, labels, hostile):
    out = []
    n = rng.choice([0, 1, 3, 6, 12])
    default = rng.choice(['on', 'off'])
    if rng.random() < .85:
        out.append('channels_default = ' + default)
    for _ in range(n):
        k = rng.randrange(22)
        if k < 5:
            out.append('channels_on = ' + gen_value(rng, labels, 1))
        elif k < 9:
            out.append('channels_off = ' + gen_value(rng, labels, 1))
        elif k < 13:
            out.append('channels_toggle = ' + gen_value(rng, labels, 1))
        elif k == 13:
            out.append(rng.choice(['silent = on', 'silent = off', 'silent=on', 'silent = maybe']))
        elif k == 14:
            out.append(rng.choice(['gdb = /usr/bin/gdb -x $F', 'xterm = konsole --name "a=b" -e %s', 'gdb =', 'gdb = a # no comment', 'xterm=' + 'x' * 5000]))
        elif k == 15:
            out.append(rng.choice(['# comment', '   # channels_default = off', '#', '\t', '', '#channels_on = *']))
        elif k == 16:
            out.append(rng.choice(['mine = some value', 'unknown = 3', 'Channels_on = *', 'channels_onx = *', 'channels_on* = *', 'silent\v=\ton']))
        elif k == 17:
            out.append('channels_default = ' + rng.choice(['on', 'off']))
        elif k == 18 and hostile:
            out.append(rng.choice(['channels_default', '= x', 'channels_on', 'channels_default = ON', 'channels_default =', 'x', 'channels_default = of',
                                   '=', 'channels_default = on off', '\xff\xfe=\x01', 'channels_on: x', 'off', 'channels_on *']))
        elif k == 19 and hostile:
            out.append(''.join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(40))))
        elif k == 20 and hostile:
            out.append('channels_on = ' + ''.join(chr(rng.choice([0, 9, 42, 44, 35, 128, 255, 65, 13])) for _ in range(rng.randrange(40))))
        else:
            out.append('channels_on = ' + gen_value(rng, labels, 1))
    if rng.random() < .1:
        rng.shuffle(out)
    out = [l if rng.random() < .7 else rng.choice([' ', '\t', ' \t\v']) + l.replace(' = ', rng.choice(['=', '\t=\v', '  =   ']), 1) + rng.choice(['', ' ', '\t '])
           for l in out]
    t = '\n'.join(out) + ('\n' if rng.random() < .8 else '')
    return t.encode('latin-1')


class Case:
    def __init__(self, ctx, k, exe):
        rng = self.rng = random.Random('rc %d %d' % (ctx.seed, k))
        self.dir = os.path.join(ctx.tmp, 'c%d' % k)
        cwd, home, pw = (os.path.join(self.dir, d) for d in ('cwd', 'home', 'pwhome'))
        for d in (cwd, home, pw):
            os.makedirs(d)
        alpha = rng.choice(['ABC', 'ABCDEFGHIJ_0', 'EFLU'])
        labels = []
        custom = []
        for _ in range(rng.choice([0, 2, 6, 20])):
            l = rng.choice(labels)[:10] if labels and rng.random() < .4 else ''
            l += ''.join(rng.choice(alpha) for _ in range(rng.randrange(1, 6)))
            if rng.random() < .2:
                l = l.lower()
            labels.append(l)
            custom.append((l, rng.random() < .9))
        self.chan = [[l, 0, False] for l, v in custom if v] + [[l, 0, True] for l in BUILTIN]
        self.chan[-1][1] = -1
        init = []
        for l, v in custom:
            init.append(('+' if v else '-') + l)
        # One initial count per label.
        counts = self.counts = {}
        args = []
        for c in self.chan:
            if c[0] not in counts:
                counts[c[0]] = rng.choice([0, 0, -1, -1, 1, 2]) if c[2] is False or rng.random() < .5 else c[1]
            c[1] = counts[c[0]]
        seen = set()
        for a in init:
            args.append('%s=%d' % (a, counts.get(a[1:], 0) if a[1:] not in seen else counts.get(a[1:], 0)))
            seen.add(a[1:])
        for l in BUILTIN:
            if l not in seen:
                args.append('%s=%d' % (l, counts[l]))
        self.chan.sort(key=lambda c: c[0].ljust(16).encode())
        self.hidden = [l for l, v in custom if not v]
        hostile = rng.random() < .4
        all_labels = labels + BUILTIN
        self.object_on = rng.random() < .8
        self.own = rng.random() < .2
        self.reads = 1 if rng.random() < .85 else 2
        env = {'LIBCWD_NO_STARTUP_MSGS': '1', 'HOME': home, 'VK_PWHOME': pw}
        # Where the file is.
        name = '.libcwdrc'
        self.env_set = rng.random() < .4
        if self.env_set:
            name = rng.choice(['rc', '.libcwdrc', 'sub/rc', 'rc with space', 'nosuch', self.dir + '/abs.rc', ''])
            env['LIBCWD_RCFILE_NAME'] = name
        self.name = name
        places = {'cwd': cwd, 'home': home, 'pw': pw}
        files = {}
        os.makedirs(cwd + '/sub'), os.makedirs(home + '/sub')
        for p, d in places.items():
            if rng.random() < .5 and name and name[0] != '/' and name != 'nosuch' and (p != 'pw' or '/' not in name):
                kind = rng.randrange(10)
                path = d + '/' + name
                if kind == 0:
                    os.makedirs(path)       # not a regular file
                elif kind == 1:
                    os.symlink('/nonexistent-vk', path)
                else:
                    files[p] = gen_file(rng, all_labels, hostile)
                    if kind == 2:
                        open(self.dir + '/real-' + p, 'wb').write(files[p])
                        os.symlink(self.dir + '/real-' + p, path)
                    else:
                        open(path, 'wb').write(files[p])
        if name.startswith('/') and rng.random() < .8:
            files['abs'] = gen_file(rng, all_labels, hostile)
            open(name, 'wb').write(files['abs'])
        data = None
        if rng.random() < .5:
            os.makedirs(cwd + '/vk-datadir/libcwd')
            data = gen_file(rng, all_labels, hostile)
            open(cwd + '/vk-datadir/libcwd/libcwdrc', 'wb').write(data)
        h = rng.randrange(8)
        if h == 0:
            env['HOME'] = None
        elif h == 1:
            env['HOME'] = ''
        elif h == 2:
            env['HOME'] = '/nonexistent-vk'
        # The documented order of places.
        self.startup_warning = []
        if 'abs' in files:
            first = (name, files['abs'])
        elif 'cwd' in files:
            first = (name, files['cwd'])
        elif 'home' in files and h > 2:
            first = (home + '/' + name, files['home'])
        elif 'pw' in files:
            first = (pw + '/' + name, files['pw'])
        elif not self.env_set and data is not None:
            first = ('vk-datadir/libcwd/libcwdrc', data)
            self.startup_warning = ['Neither ./.libcwdrc nor %s/.libcwdrc exist.' % pw, 'Using default rcfile "vk-datadir/libcwd/libcwdrc".']
        else:
            first = None
        self.files = [first]
        self.override = None
        if rng.random() < .5:
            oname = rng.choice(['over', 'over.rc', self.dir + '/over'])
            env['LIBCWD_RCFILE_OVERRIDE_NAME'] = oname
            text = None
            if rng.random() < .9:
                text = gen_file(rng, all_labels, hostile)
                with open(os.path.join(cwd, oname), 'wb') as f:
                    f.write(text)
            self.files.append((oname, text))
        self.cmd = [exe, str(int(self.object_on)), str(self.reads), str(int(self.own))] + args
        self.env, self.cwd = env, cwd

    def expect(self):
        m = Model(self.chan)
        m.builtin_warning = next(i for i, c in enumerate(self.chan) if c[2] and c[0] == 'WARNING')
        try:
            for _ in range(self.reads):
                if self.files[0] is None:
                    raise Fatal('read_rcfile: Could not read')
                for t in self.startup_warning:
                    m.warn(t)
                m.read(self.files, self.own)
        except Fatal as e:
            return m, str(e)
        return m, None


def describe(c):
    return 'cwd %s, env %s\ncommand: %s\n%s' % (c.cwd, c.env, ' '.join(c.cmd), '\n'.join(
        '--- %s\n%s' % (f[0], check_text(f[1])) for f in c.files if f))


def check_text(b):
    return '(absent)' if b is None else b[:3000].decode('latin-1')


def judge(ctx, k, c, r):
    m, fatal = c.expect()
    err = r.err.decode('latin-1')
    bad = lambda key, what: ctx.violation(key, '%s\n%s\nstderr: %s\nstdout: %s' % (what, describe(c), err[-1500:], r.out[-1500:].decode('latin-1')),
                                          'VERIF_SEED=%d, case %d of R01' % (ctx.seed, k))
    if r.timed_out:
        return bad('hang', 'reading the rcfile does not end')
    reps = check.sanitizer_reports(r.err)
    if reps:
        return [bad(key, body) for key, body in reps]
    ctx.count(1)
    msgs = re.findall(r'^(RCFILE|WARNING|FATAL) *: ( *)(.*)$', err, re.M) if '\r' not in err and '\0' not in err else None
    if fatal:
        ctx.stat('refused', 1)
        if r.rc != 180:
            return bad('not-refused', 'exit status %d, expected 180 and: %s' % (r.rc, fatal))
        text = [t for ch, _, t in msgs or [] if ch == 'FATAL']
        if msgs is not None and (len(text) != 1 or not text[0].startswith(fatal)):
            return bad('fatal-message', 'expected the message: ' + fatal)
    else:
        if r.rc != 0:
            return bad('refused', 'exit status %d on an rcfile that is right' % r.rc)
        ctx.stat('accepted', 1)
        got = [l for l in r.out.decode('latin-1').split('\n')]
        states = [l[2:].split('\t') for l in got if l.startswith('S ')]
        want = [[ch[0], str(ch[1])] for ch in m.ch]
        if states != want:
            diff = [(a, b) for a, b in zip(states, want) if a != b]
            key = 'state' if any((int(a[1]) < 0) != (int(b[1]) < 0) or a[0] != b[0] for a, b in diff) or not diff else 'off-count'
            return bad(key, 'channel (got, expected): %s' % diff)
        for l in got:
            if l.startswith('H ') and int(l.split('\t')[1]) != c.counts.get(l[2:].split('\t')[0], 0):
                return bad('hidden', 'a channel that is not in the list was changed: ' + l)
        def field(k):
            return [l[2:] for l in got if l.startswith(k + ' ')]
        esc = lambda s: ''.join(x if 32 <= ord(x) < 127 and x != '\\' else '\\x%02x' % ord(x) for x in s)
        if field('G') != [esc(m.gdb)] or field('X') != [esc(m.xterm)]:
            return bad('values', 'gdb or xterm: %s %s, expected %s %s' % (field('G'), field('X'), m.gdb, m.xterm))
        if field('R') != ['0 1']:
            return bad('read_called', 'read_called() is wrong: %s' % field('R'))
        if field('O') != ['%d 0' % c.object_on]:
            return bad('object', 'debug object on and indent afterwards: %s' % field('O'))
        if field('K') != [esc(v) for v in m.own_values]:
            return bad('own-keyword', '%s, expected %s' % (field('K'), m.own_values))
    if msgs is not None:
        ctx.stat('message_sets', 1)
        w = [t for ch, _, t in msgs if ch == 'WARNING']
        if w != (m.warnings if c.object_on else []):
            return bad('warnings', 'warnings %s, expected %s' % (w, m.warnings if c.object_on else []))
        turned = [t for ch, _, t in msgs if ch == 'RCFILE' and t.startswith('Turned o')]
        lines = [t for ch, _, t in msgs if ch == 'RCFILE' and not t.startswith('Turned o') and not t.startswith('Using environment')]
        if turned != (m.turned if c.object_on else []):
            return bad('reported', 'reported %s, expected %s' % (turned, m.turned if c.object_on else []))
        if [x.rstrip() for x in lines] != ([x.rstrip() for x in m.lines] if c.object_on else []):
            return bad('echo', 'echoed %s, expected %s' % (lines, m.lines if c.object_on else []))
    text = '|'.join(check_text(f[1]) for f in c.files if f)
    if len(text) > 20:
        ctx.count(0, text)
    if k % 101 == 5:
        ctx.sample('%d channels; %s; %s' % (len(c.chan), text.replace('\n', '; ')[:300], fatal or 'accepted'))


@prop('R01')
def r01(ctx):
    ctx.rule = ('one random set of channels and initial states, rcfile, override file and place of the file (current directory, HOME, '
                'passwd home, data directory, environment) per process; exit status, states and off counts of all channels, settings and '
                'messages compared with a model of the grammar; non-trivial: more than 20 bytes of rcfile')
    import concurrent.futures
    plan = []
    n = ctx.n(1200, 20000)
    exes = [(build.program('rcfile', ['h_rcfile.cpp'], v), s) for v, s in (('gasan', 8), ('debug', 1), ('asan', 1))]
    wheel = [e for e, s in exes for _ in range(s)]

    def one(k):
        c = Case(ctx, k, wheel[k % len(wheel)])
        r = check.execute(c.cmd, 60, c.env, cwd=c.cwd)
        if r.timed_out and not r.idle:
            r = check.execute(c.cmd, 120, c.env, cwd=c.cwd)
        shutil.rmtree(c.dir, ignore_errors=True)
        return k, c, r
    with concurrent.futures.ThreadPoolExecutor(build.JOBS) as ex:
        for k, c, r in ex.map(one, range(n)):
            if r.rc in (126, 127):
                raise check.HarnessError('rcfile program: ' + r.err.decode('latin-1'))
            judge(ctx, k, c, r)
    documented_override(ctx, exes[0][0])
    ctx.need(ctx.violations or (ctx.extra.get('accepted', 0) > n / 4 and ctx.extra.get('refused', 0) > n / 20), 'both outcomes')


def documented_override(ctx, exe):
    """'Using channels_on even once, in this file, will reset all previously turned on channels.'"""
    for default in ('on', 'off', None):
        for n in (1, 2):
            d = os.path.join(ctx.tmp, 'o%s%d' % (default, n))
            os.makedirs(d)
            with open(d + '/rc', 'w') as f:
                f.write(('channels_default = %s\n' % default if default else '') + 'channels_on = notice, foo\n')
            with open(d + '/over', 'w') as f:
                f.write('channels_on = system\n' + ('channels_on = debug\n' if n == 2 else ''))
            r = check.execute([exe, '1', '1', '0', '+FOO=0'], 60, {'LIBCWD_RCFILE_NAME': 'rc', 'LIBCWD_RCFILE_OVERRIDE_NAME': 'over',
                                                                   'LIBCWD_NO_STARTUP_MSGS': '1'}, cwd=d)
            ctx.count(1)
            on = sorted(l.split('\t')[0][2:] for l in r.out.decode('latin-1').split('\n') if l.startswith('S ') and l.endswith('\t-1'))
            want = sorted(['SYSTEM'] + (['DEBUG'] if n == 2 else []) + (['WARNING'] if default is None else []))
            if on != want:
                ctx.violation('override-reset:default-%s:%s' % (default, ','.join(on)),
                              'rcfile: channels_default = %s, channels_on = notice, foo; override file: channels_on = system%s; on are %s' %
                              (default, ', channels_on = debug' if n == 2 else '', on), 'cd %s; see documented_override in vk/props/rcfile.py' % d)
