"""D01: demangling agrees with __cxa_demangle; D02: demangling any string is safe and bounded."""
import glob, gzip, os, random, re, struct, subprocess
from . import prop
from .. import build, check
from ..gen import mangle

CORPUS = os.path.join(build.VERIF, 'harness', 'data', 'symbols.txt.gz')


def _hexreal(m):
    x = struct.unpack('>f' if m.group(1) == 'float' else '>d', bytes.fromhex(m.group(2)))[0]
    return '(%s)%r ' % (m.group(1), x)


_REAL = re.compile(r'\((float|double)\)(-?(?:\d[\d.]*(?:e[-+]?\d+)?|inf|nan))')


def reals(s):
    """Replace floating point literals by '#'; returns the string and the values."""
    v = []

    def f(m):
        v.append((m.group(1), float(m.group(2))))
        return '(%s)#' % m.group(1)
    return _REAL.sub(f, s), v


def norm(s):
    """Remove the differences in spelling that the property allows."""
    s = re.sub(r'(float|long double|double) _Complex', r'complex \1', s)
    s = re.sub(r'\((float|double)\)\[([0-9a-f]+)\]', _hexreal, s)
    s = re.sub(r'\s+', ' ', s)
    s = re.sub(r'\s*([<>,()&*\[\]:{}])\s*', r'\1', s)
    for t, u in (('unsigned int', 'u'), ('unsigned long long', 'ull'), ('unsigned long', 'ul'), ('long long', 'll'),
                 ('long', 'l')):
        s = re.sub(r'\(%s\)(-?\d+)' % t, r'\1' + u, s)
    s = s.replace('()(', '(').replace(' ', '')
    s = s.replace('std::basic_string<char,std::char_traits<char>,std::allocator<char>>', 'std::string')
    for n in ('iostream', 'istream', 'ostream'):
        s = s.replace('std::basic_%s<char,std::char_traits<char>>' % n, 'std::' + n)
        s = re.sub(r'std::%s::(~?)basic_%s\b' % (n, n), r'std::%s::\1%s' % (n, n), s)
    return re.sub(r'std::string::(~?)basic_string\b', r'std::string::\1string', s)


def same(mangled, lib, cxa):
    a, b = norm(lib), norm(cxa)
    if a == b:
        return True
    (a, va), (b, vb) = reals(a), reals(b)
    if len(va) != len(vb):
        return False
    for (t, x), (u, y) in zip(va, vb):
        if t != u:
            return False
        if x != y and not (x != x and y != y) and not abs(x - y) <= (1e-14 if t == 'double' else 1e-6) * abs(y):
            return False
    if a == b:
        return True
    if 'Z' in mangled[2:]:
        # The platform leaves out the return type of a function template that encloses a local name.
        for p in ('guardvariablefor', 'typeinfofor', 'vtablefor', 'typeinfonamefor', 'VTTfor'):
            if a.startswith(p) and b.startswith(p):
                a, b = a[len(p):], b[len(p):]
        if a.endswith(b):
            return True
    if 'X' in mangled and re.sub('[()]', '', a) == re.sub('[()]', '', b):
        return True                     # parentheses in expressions
    return False


def run_lines(ctx, exe, lines, threads, origin, must_demangle):
    inp = ('\n'.join(lines) + '\n').encode()
    r = ctx.harness(exe, [ctx.seed, threads], timeout=850, stdin=inp, ctxname='demangle',
                    replay='printf "%s\\n" <line> | ' + exe)
    n = d = 0
    for raw in r.out.split(b'\n'):
        if not raw.startswith(b'R '):
            continue
        k, m, lib, cxa = raw[2:].decode('latin-1').split('\t')
        n += 1
        if cxa == '!':
            ctx.stat('not_accepted_by_platform', 1)
            continue
        if lib == m and not must_demangle:
            ctx.stat('left_unchanged', 1)
            continue
        if not same(m, lib, cxa):
            ctx.violation('%s:%s' % (origin, 'symbol' if k == 's' else 'type'),
                          'mangled:  %s\nlibcwd:   %s\nplatform: %s' % (m, lib, cxa),
                          'c++filt %s; demangle_%s("%s")' % (m, 'symbol' if k == 's' else 'type', m))
            ctx.stat('mismatches', 1)
        elif norm(lib) != m:
            d += 1
            ctx.count(0, m)
            if d % 997 == 1:
                ctx.sample('%s -> %s' % (m, lib))
    ctx.count(n)
    if not r.timed_out and not ctx.violations and n < len(lines):
        raise check.HarnessError('%d of %d lines answered' % (n, len(lines)))
    return d


@prop('D01')
def d01(ctx):
    ctx.rule = ('mangled names: a corpus of symbols of real libraries in the supported grammar, and names generated from random '
                'types and entities by an independent implementation of the ABI; each demangled with libcwd and __cxa_demangle, '
                'appended to old contents, and again from four threads in other orders; non-trivial: actually demangled')
    exe = build.program('h_demangle', ['h_demangle.cpp'], 'gasan')
    with gzip.open(CORPUS, 'rt') as f:
        corpus = f.read().split()
    rng = random.Random(ctx.seed)
    rng.shuffle(corpus)
    d = run_lines(ctx, exe, ['s\t' + m for m in corpus], 4, 'corpus', True)
    ctx.stat('corpus_demangled', d)
    feats = {}
    used = 0
    for _ in range(ctx.n(1, 8)):
        lines = set()
        for k, m, f, u in mangle.generate(rng, ctx.n(25000, 60000)):
            if len(m) < 600:
                lines.add(k + '\t' + m)
                used += u
                for x in f:
                    feats[x] = feats.get(x, 0) + 1
        d = run_lines(ctx, exe, sorted(lines), 4, 'generated', True)
        ctx.stat('generated_demangled', d)
    ctx.extra['features'] = feats
    ctx.stat('substitutions_used', used)
    # Every operator and builtin type, and floating point literals.
    lines = ['s\t_ZN1A%sEv' % o for o in mangle.OPS] + ['s\t_Z%s1AS_' % o for o in mangle.OPS]
    lines += ['s\t_Z1f' + b for b in mangle.BUILTINS] + ['t\t' + b for b in mangle.BUILTINS]
    lines += ['s\t_ZN1A%sI1BEEvv' % o for o in mangle.OPS]
    lines += ['s\t_ZN1BC%dEv' % i for i in (1, 2, 3)] + ['s\t_ZN1BD%dEv' % i for i in (0, 1, 2)]
    for _ in range(ctx.n(800, 8000)):
        b = rng.getrandbits(64) if rng.random() < .6 else rng.getrandbits(rng.choice([1, 8, 20, 40, 52, 63]))
        if (b >> 52) & 0x7ff == 0x7ff:
            continue
        lines.append('t\t1AILd%016xEE' % b)
        b = rng.getrandbits(32) if rng.random() < .6 else rng.getrandbits(rng.choice([1, 8, 20, 31]))
        if (b >> 23) & 0xff != 0xff:
            lines.append('t\t1AILf%08xEE' % b)
    for n in range(0, 1300, 1 if ctx.thorough else 37):      # long sequences of substitutions: the base 36 numbers
        m = ''.join('%d%s' % (len(str(i)) + 1, 'C%d' % i) for i in range(n + 1))
        lines.append('s\t_Z1f' + m + mangle.seq_id(n))
    lines += ['s\t_Z1f' + '1aI' * n + 'i' + 'E' * n + 'S%s_' % ('' if n == 1 else '0') for n in (1, 2, 5, 20, 30, 60, 100)]
    # Many template parameters, long identifiers, long parameter lists and large numbers.
    for n in sorted({0, 1, 2, 8, 9, 10, 11, 12, 35, 36, 37, 98, 99, 100, 101, 102, 120, 350} | {rng.randrange(0, 400) for _ in range(ctx.n(20, 200))}):
        a = ''.join('%d%s' % (len(str(i)) + 1, 'C%d' % i) for i in range(n + 1))
        k = rng.randrange(0, n + 1)
        t = lambda i: 'T%s_' % ('' if i == 0 else i - 1)
        lines += ['s\t_Z1fI%sEv%s' % (a, t(n)), 's\t_Z1fI%sEP%sR%sK%s' % (a, t(k), t(n), t(rng.randrange(0, n + 1))),
                  's\t_ZN1AI%sE1gI%sEEv%s%s' % (a, a.replace('C', 'D'), t(n), t(k)), 's\t_ZN1AcvT_I%d%sEEv' % (n + 1, 'q' * (n + 1)),
                  's\t_ZN1AI%sEcvT_I1ZEEv' % a,
                  's\t_Z%d%sv' % (n * 7 + 1, 'f' * (n * 7 + 1)), 's\t_Z1fRA%d_%s' % (n * n * 13 + 1, rng.choice('ijcd')), 's\t_Z1f%s' % ('i' * (n + 1)),
                  's\t_ZThn%d_N1A1fEv' % (n * 8 + 1), 's\t_ZTv%d_n%d_N1A1fEv' % (n * 8 + 1, n * 16 + 3), 's\t_Z1f%si' % ('P' * (n % 200 + 1)),
                  's\t_ZN%s1fEv' % a, 's\t_Z1fILi%dELin%dELj%dEEvv' % (n * 71, n * 31 + 1, n * 5)]
    run_lines(ctx, exe, lines, 4, 'tables', True)
    # The special forms and failures.
    lines = ['s\t_GLOBAL__I_foo', 's\t_GLOBAL__D__ZN1AC1Ev', 's\tmain', 's\t_Z', 's\t', 's\t_Z1fvQQ', 's\t_GLOBAL__X_foo',
             't\tQQ', 's\t_ZN1A', 's\tprintf']
    exp = ['global constructors keyed to foo', 'global destructors keyed to _ZN1AC1Ev', 'main', '_Z', None, '_Z1fvQQ',
           '_GLOBAL__X_foo', 'QQ', '_ZN1A', 'printf']
    inp = '\n'.join(lines) + '\n'
    r = ctx.harness(exe, [ctx.seed, 2], stdin=inp.encode(), ctxname='demangle')
    got = {}
    for raw in r.out.split(b'\n'):
        if raw.startswith(b'R '):
            k, m, lib, _ = raw[2:].decode('latin-1').split('\t')
            got[m] = lib
    for l, e in zip(lines, exp):
        ctx.count(1)
        if e is not None and got.get(l[2:]) != e:
            ctx.violation('special-form', '%s gave %s, expected %s' % (l[2:], got.get(l[2:]), e))
    if ctx.thorough:
        syms = system_symbols(300)
        ctx.stat('system_symbols', len(syms))
        syms = [s for s in syms if len(s) < 20000]
        for i in range(0, len(syms), 40000):
            run_lines(ctx, exe, ['s\t' + s for s in syms[i:i + 40000] if supported(s)], 2, 'system', False)
    ctx.need(ctx.extra.get('generated_demangled', 0) > 10000 or ctx.violations, 'generated names')


def supported(s):
    # cv-qualified function types outside pointers to member functions are not in the supported grammar.
    return not re.search(r'[KV]F', s)


def system_symbols(limit):
    libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/*.so*') + glob.glob('/usr/lib/llvm*/lib/*.so*'))
    out, seen = set(), set()
    for l in libs[:limit * 10]:
        l = os.path.realpath(l)
        if l in seen or not os.path.isfile(l):
            continue
        seen.add(l)
        p = subprocess.run(['nm', '-D', '--defined-only', l], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           errors='replace')
        for line in p.stdout.split('\n'):
            w = line.split(' ')[-1].split('@')[0]
            if w.startswith('_Z'):
                out.add(w)
        if len(seen) >= limit:
            break
    return sorted(out)


def hostile():
    """Hand-made inputs: deep recursion, self references, exponential substitutions, cut off names."""
    d = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    return [('s', x) for x in (
        '_Z' + '1aI' * 100000, '_Z1f' + '1aI' * 20000 + 'i' + 'E' * 20000, '_Z1f' + 'N1aI' * 20000, '_Z1f' + 'PF' * 50000,
        '_Z1fI' + 'Xng' * 50000, '_Z1fIX' + 'ng' * 50000, '_Z1f' + 'M' * 100000, '_Z' + 'Z' * 100000,
        '_Z1fI' + 'L_Z1fI' * 30000, '_ZN1A' + 'cv' * 50000, '_ZN1AcvT_IXT_EEv', '_Z1fIXT_EEvv', '_Z1fIT_EvT_', '_Z1fIXngT_EEvT_',
        '_Z1fI1AIT_EEvT_', '_Z1f' + 'P1aIiiE' + ''.join('1aIS%s_S%s_E' % (x, x) for x in [''] + list(d)),
        '_Z1fIi' + ''.join('1aIT%s_T%s_E' % (x, x) for x in [''] + [str(i) for i in range(60)]) + 'EvT59_',
        '_Z1f' + 'P' * 100000 + 'i' + 'S_' * 100000, '_Z1f' + 'A_' * 8000 + 'i', '_Z1f' + 'A3_K' * 8000 + 'i',
        '_ZT' + 'h0_Th0_T' * 20000, '_ZT' + 'ch0_h0_T' * 20000, '_Z1fS' + 'Z' * 1000 + '_', '_Z1f' + '9' * 1000 + 'a',
        '_Z1f2147483647a', '_Z1f2147483648a', '_Z1f4294967297a', '_Z1f99999999999999999999a',
        '_Z1fIiEvT' + '9' * 1000 + '_', '_Z1fS4294967295_', '_Z1fIiEvT4294967295_', '_Z12_GLOBAL_', '_Z12_GLOBAL__', '_Z12_GLOBAL__N',
        '_Z20_GLOBAL__N_1', '_Z1fILd3ff0000000000000EEvv', '_Z1fILdddddddddddddddddEEvv', '_Z1fILd8000000000000001EEvv',
        '_Z1fILdfff8000000000000EEvv', '_Z1fILe4000c90fdaa22168c235EEvv', '_Z1fILd3ffEEvv', '_Z1fILf', '_Z1fIi' + 'C' * 50000 + 'iE',
        '_Z1fU', '_Z1fU3foo', '_Z1fA', '_Z1fA1', '_Z1fA1_', '_Z1fAn1_i', '_Z1fM', '_Z1fM1A', '_Z1fM1AK', '_Z1fM1AKF', '_Z1fL', '_Z1fIL',
        '_Z1fIL_', '_Z1fIL_Z', '_Z1fIX', '_Z1fIXcv', '_Z1fIXsr', '_Z1fIXst', '_Z1fIXsz', '_ZS', '_ZSt', '_ZN', '_ZNK', '_ZNKS', '_ZNSt',
        '_ZZ', '_ZZ1fvE', '_ZZ1fvEs', '_ZZ1fvEs_', '_ZZ1fvE1a_', '_ZT', '_ZTV', '_ZTh', '_ZTh0', '_ZTv0_', '_ZTC1A', '_ZTC1A0',
        '_ZTC1A0_', '_ZG', '_ZGV', '_ZGVZ', '_Zcv', '_Zc', '_Z' + '\xff' * 50, '_Z1\x80', '_Z\x80\x80', '_Znw', '_Zn', '_ZC1', '_ZD1',
        '_ZN1AC', '_ZN1AD', '_ZN1AD1', '_ZN1AD1E', '_ZN1AD1Ei')] + [('t', x) for x in (
            '', 'P', 'PP', 'K', 'KVr', 'KVrKVrKVri', 'F', 'Fv', 'FvE', 'PFvE', 'S_', 'S0_', 'T_', 'T', 'N', 'Z', '1', '9', '0', '00a',
            '1aI', '1aIE', '1aIiE', 'N1aE', 'C', 'G', 'Cf', 'U1ai', 'A1_', 'A1_i', 'M1AFvvE', 'M1AFv', '1aI' * 50000,
            '1aIiiE' + ''.join('1aIS%s_S%s_E' % (x, x) for x in [''] + list(d)))]


@prop('D02')
def d02(ctx):
    ctx.rule = ('strings: hand-made hostile names (recursion, self reference, exponential substitution, every kind of cut-off), then '
                'coverage-guided mutation (libFuzzer) from real and generated names, under AddressSanitizer, LeakSanitizer and '
                'UndefinedBehaviorSanitizer with a time limit per string; non-trivial: one fuzzing run reaching new coverage')
    exe = build.program('fuzz_demangle', ['fuzz_demangle.cpp'], 'fuzz')
    hand = os.path.join(ctx.tmp, 'hand')
    corp = os.path.join(ctx.tmp, 'corpus')
    os.makedirs(hand)
    os.makedirs(corp)
    inputs = hostile()
    rng = random.Random(ctx.seed)
    with gzip.open(CORPUS, 'rt') as f:
        symbols = [s for s in f.read().split() if len(s) < 250]
    for s in rng.sample(symbols, 60):       # every prefix of some names
        inputs += [('s', s[:n]) for n in range(2, len(s))]
    for i, (k, s) in enumerate(inputs):
        with open(os.path.join(hand, '%05d' % i), 'wb') as f:
            f.write((b'A' if k == 't' else b'@') + s.encode('latin-1'))
    args = [exe, '-timeout=25', '-rss_limit_mb=4096', '-close_fd_mask=1', '-artifact_prefix=%s/' % ctx.tmp]

    def judge(r, what):
        reps = check.sanitizer_reports(r.err)
        text = r.err.decode('latin-1')
        art = re.search(r"Test unit written to (\S+)", text)
        replay = what
        if art and os.path.exists(art.group(1)):
            keep = os.path.join(check.EVID, 'replay')
            os.makedirs(keep, exist_ok=True)
            dst = os.path.join(keep, 'D02-' + os.path.basename(art.group(1))[:30])
            with open(art.group(1), 'rb') as a, open(dst, 'wb') as b:
                b.write(a.read())
            replay = '%s %s' % (exe, dst)
        for k, body in reps:
            ctx.violation('demangle:' + k, body, replay)
        m = re.search(r'VKFAIL ([^\n]*)\n([^\n]*\n[^\n]*)', text)
        if m:
            ctx.violation('demangle:' + m.group(1), m.group(2), replay)
        m = re.search(r'ERROR: libFuzzer: ([^\n]*)', text)
        if m and not re.search('VKFAIL', text) and not reps:
            kind = 'hang' if 'timeout' in m.group(1) else 'memory' if 'out-of-memory' in m.group(1) else 'crash'
            ctx.violation('demangle:' + kind, text[-3000:], replay)
        if r.rc != 0 and not ctx.violations and not ctx.known:
            raise check.HarnessError('fuzzer exited %s\n%s' % (r.rc, text[-2000:]))
        return text

    # The files are given by name so that each is run exactly once, in order; in parallel slices.
    import concurrent.futures
    files = sorted(os.path.join(hand, f) for f in os.listdir(hand))
    slices = [files[i::8] for i in range(8)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda sl: check.execute(args + sl, timeout=600), slices))
    for r in rs:
        if r.timed_out:
            ctx.violation('demangle:hang', 'one of the hand-made inputs does not end: ' + r.err.decode('latin-1')[-500:], 'hand')
        else:
            judge(r, 'hand-made inputs')
    ctx.count(len(files))
    for s in inputs[:40]:
        ctx.count(0, s[1][:200])
    if ctx.violations:
        return
    i = 0
    for s in rng.sample(symbols, 1200):
        with open(os.path.join(corp, 's%05d' % i), 'wb') as f:
            f.write(rng.choice([b'@', b'B']) + s.encode())
        i += 1
    for k, m, _, _ in mangle.generate(rng, 1200):
        if len(m) < 300:
            with open(os.path.join(corp, 'g%05d' % i), 'wb') as f:
                f.write((b'A' if k == 't' else b'B') + m.encode())
            i += 1
    runs = ctx.n(60000, 1500000)
    ctx.stat('seed_inputs', i)

    def fuzz(j):
        c = os.path.join(ctx.tmp, 'c%d' % j)
        os.makedirs(c)
        return check.execute(args + ['-seed=%d' % (ctx.seed * 100 + j), '-max_len=%d' % (300 + 100 * j), '-runs=%d' % runs,
                                     '-max_total_time=%d' % ctx.n(100, 600), '-print_final_stats=1', c, corp],
                             timeout=ctx.n(400, 850))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(fuzz, range(7)))
    for r in rs:
        if r.timed_out:
            raise check.HarnessError('the fuzzer did not end')
        text = judge(r, 'fuzzing')
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', text)
        if m:
            ctx.count(int(m.group(1)))
        m = re.findall(r'cov: (\d+) ft: (\d+)', text)
        if m:
            ctx.stat('features_reached', int(m[-1][1]))
            ctx.extra['edges'] = max(ctx.extra.get('edges', 0), int(m[-1][0]))
        m = re.search(r'stat::new_units_added:\s*(\d+)', text)
        if m:
            ctx.distinct += int(m.group(1))
    ctx.sample(inputs[5][1][:100])
    ctx.sample(rng.choice(symbols))
    ctx.need(ctx.evaluations > 10000 or ctx.violations, 'fuzzed strings')
