"""Common machinery of the checks: running harnesses, collecting verdicts, evidence, known findings."""
import argparse, fnmatch, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')


class HarnessError(Exception):
    """The machinery itself failed: neither held nor violated."""


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:handle_abort=0:'
                    'detect_stack_use_after_return=1:check_initialization_order=0:strict_string_checks=0:color=never',
    'LSAN_OPTIONS': 'exitcode=98:suppressions=%s/vk/lsan.supp:print_suppressions=0' % VERIF,
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=97:color=never',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=96:second_deadlock_stack=1:suppressions=%s/vk/tsan.supp:color=never:history_size=4'
                    % VERIF,
}


class Result:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall
        self.idle = False       # Timed out, as it did nothing any more.


HUNG = []           # Commands that stopped doing anything.
SPUN = []           # Commands that used the processor for all of their time.
IDLE = 45


def session_state(sid):
    """(ticks of processor time, whether all threads sleep) of the processes in a session."""
    ticks, asleep = 0, True
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % p, 'rb') as f:
                x = f.read().rpartition(b')')[2].split()
            if int(x[3]) != sid:
                continue
            ticks += sum(map(int, x[11:15]))
            if x[0] not in b'SZX':
                asleep = False
            for th in os.listdir('/proc/%s/task' % p):
                with open('/proc/%s/task/%s/stat' % (p, th), 'rb') as f:
                    if f.read().rpartition(b')')[2].split()[0] not in b'SZX':
                        asleep = False
        except (OSError, IndexError):
            asleep = False      # Something happens.
    return ticks, asleep


def execute(cmd, timeout=120, env=None, stdin=None, cwd=None, mem=None, keep_env=False):
    if len(HUNG) >= 4 or len(SPUN) >= 6:
        return Result(-9, b'', b'not run: others hang', True, 0)
    e = {k: v for k, v in os.environ.items() if not k.startswith('LIBCWD_')}
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C'
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    timed_out = False
    bufs = {}

    def reader(name, f):
        # Keeps the begin and the end; a child that writes without end is stopped.
        head, tail, total = [], b'', 0
        while True:
            d = f.read1(1 << 16)
            if not d:
                break
            total += len(d)
            if total < 8 << 20:
                head.append(d)
            else:
                tail = (tail + d)[-(1 << 18):]
                if total > 256 << 20:
                    kill()
        bufs[name] = b''.join(head) + tail

    def kill():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    ths = [threading.Thread(target=reader, args=x) for x in (('out', p.stdout), ('err', p.stderr))]
    for th in ths:
        th.start()
    try:
        if stdin:
            p.stdin.write(stdin)
        p.stdin.close()
    except BrokenPipeError:
        pass
    deadline = t + timeout
    samples, idle = [], False   # Processor time at the last moments that everything slept.
    while True:
        for th in ths:
            th.join(max(0, min(deadline - time.time(), 2 / len(ths))))
        try:
            p.wait(0.01)
            if not any(th.is_alive() for th in ths):
                break
        except subprocess.TimeoutExpired:
            pass
        if time.time() >= deadline:
            timed_out = True
            if session_state(p.pid)[0] > 70 * timeout:
                SPUN.append(cmd)
            break
        if time.time() > t + 5:
            ticks, asleep = session_state(p.pid)
            samples = (samples + [ticks]) if asleep else []
            # Counted in samples, so that a time during which this program did not run either does not count.
            if len(samples) > IDLE // 2 and samples[-1] - samples[-1 - IDLE // 2] < 5:
                timed_out = idle = True
                HUNG.append((cmd, bufs))
                break
    if timed_out:
        kill()
    for th in ths:
        th.join()
    p.wait()
    p.stdout.close()
    p.stderr.close()
    out, err = bufs['out'], bufs['err']
    r = Result(p.returncode, out, err, timed_out, time.time() - t)
    r.idle = idle
    return r


_FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (?:/|<null>|\()')


def sanitizer_reports(text):
    """Split sanitizer output in reports; returns a list of (key, excerpt)."""
    out = []
    if isinstance(text, bytes):
        text = text.decode('latin-1')
    for m in re.finditer(r'runtime error: ([^\n]*)', text):
        line = text[text.rfind('\n', 0, m.start()) + 1:m.start()]
        where = re.match(r'.*?([\w.]+\.(?:h|cxx|cpp)):\d+', line)
        msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80]
        out.append(('ubsan:%s:%s' % (where.group(1) if where else '?', msg), text[max(0, m.start() - 200):m.start() + 3000]))
    for m in re.finditer(r'==\d+==\s*ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', text):
        if m.group(1) == 'AddressSanitizer' and m.group(2) in ('ABRT',):
            continue
        body = text[m.start():m.start() + 6000]
        fn = _repo_frame(body)
        kind = 'asan' if m.group(1)[0] == 'A' else 'leak'
        out.append(('%s:%s:%s' % (kind, m.group(2) if kind == 'asan' else 'leak', fn), body))
    for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]*)', text):
        end = text.find('SUMMARY: ThreadSanitizer', m.start())
        body = text[m.start():(end if end > 0 else m.start() + 8000)]
        fns = []
        for part in re.split(r'\n\s*\n', body)[:3]:
            if re.search(r'(Write|Read|Previous|Atomic|Mutex|acquired|write|read) ', part):
                fns.append(_repo_frame(part))
        out.append(('tsan:%s:%s' % (m.group(1).strip(), '|'.join(sorted(fns[:2]))), body[:6000]))
    return out


def _repo_frame(body):
    best = None
    for l in body.split('\n'):
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.*)', l)
        if not m:
            continue
        if build.REPO + '/' in l or '/repo/' in l:
            f = m.group(1)
            f = re.sub(r' /.*', '', f)
            f = re.sub(r'\(.*', '', f)
            return f[:100]
        if best is None and not re.search(r'interceptor|sanitizer|__asan|__tsan|operator new|malloc|std::|__gnu', l):
            best = re.sub(r'\(.*', '', re.sub(r' /.*', '', m.group(1)))[:100]
    return best or '?'


class Ctx:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.hangs = False
        self.evaluations = 0
        self.distinct = 0
        self.distinct_set = set()
        self.rule = ''
        self.samples = []
        self.extra = {}
        self.violations = {}
        self.known = {}
        self.notes = []
        self.findings = [f for f in load_findings() if f['property'] == prop and f.get('status') == 'known']
        self.tmp = tempfile.mkdtemp(prefix='vk-%s-' % prop)
        self.thorough = tier == 'thorough'
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- verdicts
    def violation(self, key, detail, replay=None):
        for f in self.findings:
            if fnmatch.fnmatchcase(key, f['match']):
                self.known.setdefault(f['match'], (f, key))
                return
        if key in self.violations:
            return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        name = '%s-%s.txt' % (self.prop, hashlib.sha256(key.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, 'w') as fh:
            fh.write('property: %s\nkey: %s\nseed: %d\ntier: %s\nreplay: %s\n\n%s\n' %
                     (self.prop, key, self.seed, self.tier, replay, detail))
        self.violations[key] = path
        print('# %s: %s' % (key, str(detail)[:1500].replace('\n', '\n#   ')), flush=True)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:600])

    def count(self, n=1, distinct_key=None):
        self.evaluations += n
        if distinct_key is not None:
            self.distinct_set.add(distinct_key)

    def stat(self, k, v):
        self.extra[k] = self.extra.get(k, 0) + v

    # -- harness with the line protocol
    def harness(self, exe, args=(), timeout=300, env=None, expect_rc=(0,), replay=None, ctxname=None, stdin=None,
                hang_is=None):
        """Run a harness that prints STAT/SAMPLE/FAIL lines and DONE; judge its outcome."""
        cmd, name, replay, r = self._run(exe, args, timeout, env, replay, ctxname, stdin)
        return self._judge(cmd, name, replay, r, timeout, expect_rc)

    def harness_many(self, jobs, workers=None):
        """Like harness(), for a list of dicts of its arguments, in parallel."""
        import concurrent.futures
        def one(j):
            j = dict(j)
            rc = j.pop('expect_rc', (0,))
            t = j.setdefault('timeout', 300)
            return (self._run(j['exe'], j.get('args', ()), t, j.get('env'), j.get('replay'), j.get('ctxname'), j.get('stdin')), t, rc)
        with concurrent.futures.ThreadPoolExecutor(workers or build.JOBS) as ex:
            done = list(ex.map(one, jobs))
        return [self._judge(*d[0][:3], d[0][3], d[1], d[2]) for d in done]

    def _run(self, exe, args, timeout, env, replay, ctxname, stdin):
        cmd = [exe] + [str(a) for a in args]
        name = ctxname or os.path.basename(exe).rsplit('-', 1)[0]
        replay = replay or ' '.join(cmd)
        if self.hangs:
            return cmd, name, replay, None
        left = 860 - (time.time() - self.t0)        # A check gets 900 s.
        if not self.thorough:
            timeout = max(20, min(timeout, 300, left))
        r = execute(cmd, timeout, env, stdin)
        if r.timed_out and not r.idle and not self.hangs:
            # Too slow? Perhaps it's the machine.
            left = 860 - (time.time() - self.t0)
            if self.thorough or left > timeout:
                r = execute(cmd, timeout * 2 if self.thorough else min(timeout * 2, left), env, stdin)
        if r.timed_out:
            self.hangs = True
        return cmd, name, replay, r

    def _judge(self, cmd, name, replay, r, timeout, expect_rc):
        if r is None:       # Not run, as others hang.
            return Result(-9, b'', b'', True, 0)
        if r.timed_out:
            self.violation('hang:' + name, '%s\n%s' % ('all threads sleep' if r.idle else 'no end within %d s, twice' % (timeout * 2), (r.out + r.err)[-2000:].decode('latin-1')), replay)
            return r
        self.protocol(r.out, replay, name)
        reps = sanitizer_reports(r.err)
        for k, body in reps:
            self.violation(name + ':' + k, body, replay)
        if r.rc not in expect_rc and not reps:
            tail = (r.out[-800:] + b'\n--stderr--\n' + r.err[-2500:]).decode('latin-1')
            if r.rc in (3, 127, 126, 2):
                raise HarnessError('%s exited %d\n%s' % (name, r.rc, tail))
            self.violation('%s:died:%s' % (name, 'signal%d' % -r.rc if r.rc < 0 else 'exit%d' % r.rc), tail, replay)
        elif not reps and b'\nDONE' not in b'\n' + r.out:
            raise HarnessError('%s ended without DONE\n%s' % (name, r.err[-2000:].decode('latin-1')))
        return r

    def protocol(self, out, replay, name=''):
        for raw in out.split(b'\n'):
            l = raw.decode('latin-1')
            if l.startswith('STAT '):
                _, k, v = l.split(' ', 2)
                if k == 'evaluations':
                    self.evaluations += int(v)
                elif k == 'distinct':
                    self.distinct += int(v)
                else:
                    self.stat(k, int(v))
            elif l.startswith('SAMPLE '):
                self.sample(l[7:])
            elif l.startswith('FAIL '):
                key, _, det = l[5:].partition('\t')
                self.violation('%s:%s' % (name, key), det.replace('\\n', '\n'), replay)

    def need(self, cond, msg):
        """An observation floor: a run that saw too little gives no answer."""
        if not cond:
            raise HarnessError('too little observed: ' + msg)

    def finish(self):
        for cmd, bufs in HUNG:
            if not any('hang' in v for v in self.violations):
                self.violation('hang:' + os.path.basename(str(cmd[0])).rsplit('-', 1)[0], 'all threads sleep: %s\n%s' % (cmd, (bufs.get('out', b'') + bufs.get('err', b''))[-2000:].decode('latin-1')), ' '.join(map(str, cmd)))
        wall = time.time() - self.t0
        distinct = self.distinct + len(self.distinct_set)
        if not self.violations:
            self.need(self.evaluations > 0 and distinct > 0, 'no case was evaluated')
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=distinct, rule=self.rule,
                   samples=self.samples or ['-'])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for m, (f, key) in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        for k, p in self.violations.items():
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('%s %s: %d cases, %d distinct, %d violations, %.1f s' %
              (self.prop, self.tier, self.evaluations, distinct, len(self.violations), wall))
        return 1 if self.violations else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    a = ap.parse_args(argv)
    if a.prop != 'G02':         # That one is about this limit.
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))    # libcwd raises the soft limit to the hard limit
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    import importlib
    from . import props
    fn = props.get(a.prop)
    ctx = Ctx(a.prop, tier, seed)
    sys.stdout.reconfigure(line_buffering=True, errors='replace')
    try:
        if os.environ.get('VK_KEEP') is None:
            build.prune()
        fn(ctx)
        return ctx.finish()
    except (build.BuildError, HarnessError) as e:
        if ctx.violations:      # Something was established before the machinery failed.
            print('# later: %s' % str(e)[:2000])
            return ctx.finish()
        print('ERROR: %s' % e)
        return 4
    except Exception:
        if ctx.violations:
            traceback.print_exc()
            return ctx.finish()
        traceback.print_exc()
        return 4
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
