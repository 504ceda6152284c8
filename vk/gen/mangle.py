"""Random C++ entities and their Itanium ABI mangled names (written from the ABI, not from libcwd)."""
import struct

BUILTINS = 'wbcahstijlmxynofdez'
VALUE_BUILTINS = 'bcahstijlmxy'
NAMES = ['A', 'B', 'foo', 'bar', 'Some_type', 'x1', 'vector', 'basic', 'T', 'n', 'E', 'S0_', 'a_rather_long_identifier_name',
         'I', 'vec2']
OPS = ['ps', 'ng', 'ad', 'de', 'co', 'pl', 'mi', 'ml', 'dv', 'rm', 'an', 'or', 'eo', 'aS', 'pL', 'mI', 'mL', 'dV', 'rM', 'aN', 'oR',
       'eO', 'ls', 'rs', 'lS', 'rS', 'eq', 'ne', 'lt', 'gt', 'le', 'ge', 'nt', 'aa', 'oo', 'pp', 'mm', 'cm', 'pm', 'pt', 'cl', 'ix',
       'nw', 'na', 'dl', 'da']
SPECIAL = ['Sa', 'Sb', 'Ss', 'Si', 'So', 'Sd']
DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def seq_id(n):
    if n == 0:
        return 'S_'
    n -= 1
    s = ''
    while True:
        s = DIG[n % 36] + s
        n //= 36
        if n == 0:
            return 'S' + s + '_'


def src(n):
    return '%d%s' % (len(n), n)


class Mangler:
    def __init__(self):
        self.subs = {}
        self.used = 0
        self.feat = set()

    def add(self, k):
        if k not in self.subs:
            self.subs[k] = len(self.subs)

    def sub(self, k):
        if k in self.subs:
            self.used += 1
            return seq_id(self.subs[k])
        return None

    # names: ('ns', parent|None, id) ('tpl', name, args) ('std',) ('sp', 'Sa') ('T', i) as template template parameter
    def prefix(self, n):
        k = n[0]
        if k == 'std':
            return 'St'
        if k == 'sp':
            return n[1]
        s = self.sub(n)
        if s:
            return s
        if k == 'ns':
            r = (self.prefix(n[1]) if n[1] else '') + src(n[2])
        elif k == 'anon':
            r = (self.prefix(n[1]) if n[1] else '') + '12_GLOBAL__N_1'
        elif k == 'op':
            r = (self.prefix(n[1]) if n[1] else '') + n[2]
        elif k == 'tpl':
            r = self.prefix(n[1]) + self.args(n[2])
        elif k == 'T':
            return self.type(n)
        else:
            raise ValueError(n)
        self.add(n)
        return r

    def args(self, a):
        self.feat.add('template')
        return 'I' + ''.join(self.arg(x) for x in a) + 'E'

    def arg(self, a):
        if a[0] == 'L':
            v = str(a[2])
            return 'L' + self.type(a[1]) + v.replace('-', 'n') + 'E'
        if a[0] == 'Lf':
            return 'L' + a[1] + a[2] + 'E'
        if a[0] == 'X':
            self.feat.add('expr')
            return 'X' + self.expr(a[1]) + 'E'
        if a[0] == 'Lz':
            self.feat.add('fnarg')
            return 'L_Z' + self.encoding(a[1]) + 'E'
        return self.type(a)

    def expr(self, e):
        if e[0] == 'T':
            return self.type(e)
        if e[0] == 'op':
            return e[1] + ''.join(self.expr(x) for x in e[2])
        if e[0] == 'st':
            return 'st' + self.type(e[1])
        return self.arg(e)

    def unscoped(self, n):
        return n[0] == 'sp' or (n[0] in ('ns', 'op', 'anon') and (n[1] is None or n[1] == ('std',)))

    def name_type(self, n):
        """A name as a type."""
        if n[0] == 'sp':
            return n[1]
        s = self.sub(n)
        if s:
            return s
        if n[0] == 'local':
            r = 'Z' + self.encoding(n[1]) + 'E' + src(n[2]) + (n[3] or '')
            self.feat.add('local')
        elif n[0] == 'tpl':
            t = n[1]
            if t[0] == 'T':
                r = self.type(t) + self.args(n[2])
            elif self.unscoped(t):
                r = self.sub(t)
                if r is None:
                    r = t[1] if t[0] == 'sp' else ('St' if t[1] else '') + src(t[2])
                    if t[0] != 'sp':
                        self.add(t)
                r += self.args(n[2])
            else:
                r = 'N' + self.prefix(t) + self.args(n[2]) + 'E'
                self.feat.add('nested')
        elif self.unscoped(n):
            r = ('St' if n[1] else '') + (src(n[2]) if n[0] == 'ns' else '12_GLOBAL__N_1')
        else:
            r = 'N' + self.prefix(n[1]) + (src(n[2]) if n[0] == 'ns' else '12_GLOBAL__N_1') + 'E'
            self.feat.add('nested')
        self.add(n)
        return r

    def type(self, t):
        k = t[0]
        if k == 'b':
            return t[1]
        if k in ('ns', 'tpl', 'sp', 'local', 'anon'):
            return self.name_type(t)
        s = self.sub(t)
        if s:
            return s
        if k == 'P' or k == 'R':
            r = k + self.type(t[1])
        elif k == 'cv':
            r = t[1] + self.type(t[2])
        elif k == 'C':
            r = 'C' + self.type(t[1])
        elif k == 'A':
            self.feat.add('array')
            r = 'A' + ('' if t[1] is None else str(t[1])) + '_' + self.type(t[2])
        elif k == 'F':
            self.feat.add('function')
            r = 'F' + self.type(t[1]) + self.params(t[2]) + 'E'
        elif k == 'M':
            self.feat.add('member')
            r = 'M' + self.type(t[1]) + self.type(t[2])
        elif k == 'MF':
            self.feat.add('member function')
            # ABI: the cv-qualified function type is one type, a substitution candidate with and without its qualifiers.
            r = 'M' + self.type(t[1])
            f = ('F', t[3], t[4])
            if t[2]:
                # g++ and clang++ make only the qualified type a candidate, and never refer to it (it has a class).
                r += t[2] + 'F' + self.type(t[3]) + self.params(t[4]) + 'E'
                self.add(('cvF', len(self.subs)))
            else:
                r += self.type(f)
        elif k == 'T':
            self.feat.add('param')
            r = 'T' + ('' if t[1] == 0 else str(t[1] - 1)) + '_'
        else:
            raise ValueError(t)
        self.add(t)
        return r

    def params(self, ps):
        return ''.join(self.type(p) for p in ps) or 'v'

    # encodings: ('fn', name, cv, ret|None, params) ('data', name) ('special', kind, x)
    def fname(self, n, cv):
        """n: ('ns',..) ('tpl',..) ('cdtor', cls, 'C1') ('op', parent, code) ('conv', parent, type)"""
        k = n[0]
        if k == 'cdtor':
            return 'N' + cv + self.prefix(n[1]) + n[2] + 'E'
        if k == 'conv':
            return 'N' + cv + self.prefix(n[1]) + 'cv' + self.type(n[2]) + 'E'
        if k == 'local':
            self.feat.add('local')
            return 'Z' + self.encoding(n[1]) + 'E' + (src(n[2]) if n[2] else 's') + (n[3] or '')
        if k == 'tpl':
            t = n[1]
            if self.unscoped(t):
                s = self.sub(t)
                if s is None:
                    s = t[1] if t[0] == 'sp' else ('St' if t[1] else '') + (t[2] if t[0] == 'op' else src(t[2]))
                    self.add(t)
                return s + self.args(n[2])
            return 'N' + cv + self.prefix(t) + self.args(n[2]) + 'E'
        if self.unscoped(n):
            return ('St' if n[1] else '') + (n[2] if k == 'op' else src(n[2]))
        return 'N' + cv + self.prefix(n[1]) + (n[2] if k == 'op' else src(n[2])) + 'E'

    def encoding(self, e):
        if e[0] == 'fn':
            r = self.fname(e[1], e[2])
            if e[3] is not None:
                r += self.type(e[3])
            return r + self.params(e[4])
        if e[0] == 'data':
            return self.fname(e[1], '')
        self.feat.add('special')
        if e[0] == 'ty':
            return e[1] + self.type(e[2])
        if e[0] == 'GV':
            return 'GV' + self.fname(e[1], '')
        if e[0] == 'thunk':
            return 'T' + e[1] + self.encoding(e[2])
        if e[0] == 'TC':
            return 'TC' + self.type(e[1]) + '%d_' % e[2] + self.type(e[3])
        raise ValueError(e)


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.pool = []          # earlier types of this symbol, to make substitutions likely
        self.nt = 0             # template type parameters of the enclosing function template

    def chance(self, p):
        return self.r.random() < p

    def count(self, usual):
        return self.r.randrange(1, 40) if self.chance(.02) else self.r.choice(usual)

    def scope(self, d):
        c = self.r.random()
        if c < .15:
            return ('std',)
        if c < .25 and d > 0:
            return ('sp', self.r.choice(SPECIAL[2:]))
        return self.cls(d)

    def cls(self, d, named=False):
        """A class (or namespace) name."""
        if self.pool and self.chance(.35):
            c = [x for x in self.pool if x[0] in ('ns', 'tpl')]
            if c:
                return self.r.choice(c)
        parent = None
        if d > 0 and self.chance(.45):
            parent = self.scope(d - 1) if not named else self.cls(d - 1)
        if self.chance(.06) and (parent is None or parent[0] != 'sp'):
            parent = ('anon', parent if parent and parent[0] == 'ns' else None)
        n = ('ns', parent, self.r.choice(NAMES))
        if d > 0 and self.chance(.35):
            n = ('tpl', n, tuple(self.targ(d - 1) for _ in range(self.count([1, 1, 2, 2, 3]))))
        elif d > 0 and self.chance(.05):
            n = ('tpl', ('sp', self.r.choice(['Sa', 'Sb'])), (self.type(d - 1),))
        self.pool.append(n)
        return n

    def targ(self, d):
        c = self.r.random()
        if c < .75:
            return self.type(d)
        b = self.r.choice(VALUE_BUILTINS)
        if c < .95:
            if b == 'b':
                v = self.r.choice([0, 1])
            else:
                v = self.r.choice([0, 1, 5, 65, 127, 1000, 4294967295, 18446744073709551615])
                if b in 'cahst':
                    v = v % 128
                if b in 'ijx' or b == 'l':
                    v = min(v, 2147483647)
                if b in 'silxa' and self.chance(.3):
                    v = -v if v else 0
            return ('L', ('b', b), v)
        if c < .975:
            return ('L', self.cls(0, True), self.r.choice([0, 3, -2, 17]))
        if self.chance(.5):
            return ('Lf', 'f', '%08x' % self.r.choice([0x3f800000, 0xbf800000, 0, 0x40490fdb, 0x7f7fffff, self.r.getrandbits(32)]))
        return ('Lf', 'd', '%016x' % self.r.choice([0x3ff0000000000000, 0xbff8000000000000, 0, 0x400921fb54442d18,
                                                    0x7fefffffffffffff, 1, self.r.getrandbits(64)]))

    def type(self, d):
        if self.nt and self.chance(.3):
            return ('T', self.r.randrange(self.nt))
        if self.pool and self.chance(.25):
            return self.r.choice(self.pool)
        t = self.type_(d)
        if t[0] != 'b':
            self.pool.append(t)
        return t

    def object_type(self, d):
        t = self.type(d)
        while t[0] in ('F', 'R', 'T', 'A') or t == ('b', 'v') or t == ('b', 'z'):
            t = self.type_(0) if d <= 0 else self.type(d - 1)
        return t

    def type_(self, d):
        c = self.r.random()
        if d <= 0 or c < .25:
            if self.chance(.5):
                return ('b', self.r.choice(BUILTINS[:-1]))
            return self.cls(max(d, 0)) if self.chance(.9) else ('sp', self.r.choice(['Ss', 'Si', 'So', 'Sd']))
        if c < .45:
            return self.ptr('P', d)
        if c < .57:
            return self.ptr('R', d)
        if c < .70:
            t = self.type(d - 1)
            if t[0] in ('cv', 'R', 'F', 'A', 'T'):
                return t
            return ('cv', self.r.choice(['K', 'K', 'K', 'V', 'VK']), t)
        if c < .77:
            t = self.object_type(d - 1)
            a = ('A', self.r.choice([1, 4, 10, 65536]), t)
            if self.chance(.3):
                a = ('A', self.r.choice([2, 7]), a)
            return (self.r.choice('PR'), a)
        if c < .86:
            f = ('F', self.ret(d - 1), self.params(d - 1))
            return ('P', f) if self.chance(.8) else ('R', f)
        if c < .90:
            return ('M', self.cls(d - 1), self.object_type(d - 1))
        if c < .95:
            return ('MF', self.cls(d - 1), self.r.choice(['', '', 'K', 'V']), self.ret(d - 1), self.params(d - 1))
        if c < .97:
            return ('C', ('b', self.r.choice('fde')))
        return self.cls(d)

    def ptr(self, k, d):
        t = self.type(d - 1)
        while t[0] == 'R' or (t[0] == 'T') and self.chance(.5):
            t = self.type_(d - 1)
        return (k, t)

    def ret(self, d):
        t = self.type(d)
        return t if t[0] not in ('F', 'A') else ('b', 'v')

    def params(self, d):
        n = self.count([0, 1, 1, 2, 2, 3])
        ps = [self.type(d) for _ in range(n)]
        ps = [('P', p) if p[0] in ('F', 'A') else p for p in ps if p != ('b', 'v')]
        if self.chance(.06) and ps:
            ps.append(('b', 'z'))
        return tuple(ps)

    def fn(self, d, plain=False):
        """A function encoding."""
        self.nt = 0
        c = self.r.random()
        cv, parent = '', None
        if self.chance(.6):
            parent = self.cls(d)
            if self.chance(.3):
                cv = self.r.choice(['K', 'K', 'V', 'VK'])
        elif self.chance(.15):
            parent = ('std',)
        if c < .12:
            cls = self.cls(d)
            k = self.r.choice(['C1', 'C2', 'D0', 'D1', 'D2'])
            base = cls
            while base[0] == 'tpl':
                base = base[1]
            if base[0] == 'sp':
                return self.fn(d, plain)
            return ('fn', ('cdtor', cls, k), '', None, () if k[0] == 'D' else self.params(d))
        if c < .18:
            return ('fn', ('conv', self.cls(d), self.type(d - 1)), self.r.choice(['', 'K']), None, ())
        if c < .38:
            n = ('op', parent, self.r.choice(OPS))
        else:
            n = ('ns', parent, self.r.choice(NAMES))
        ret = None
        if not plain and self.chance(.35):
            args = []
            for _ in range(self.count([1, 1, 2, 3])):
                a = self.targ(d)
                # Template arguments that are references or functions only mangle sensibly in T_ itself.
                args.append(a)
            n = ('tpl', n, tuple(args))
            self.targs = args
            ok = [i for i, a in enumerate(args) if a[0] not in ('L', 'Lf', 'R', 'F', 'A', 'cv')]
            self.nt = 0
            if ok and ok == list(range(len(ok))):
                self.nt = len(ok)
            ret = self.ret(d)
            e = ('fn', n, cv if parent and parent != ('std',) else '', ret, self.params(d))
            self.nt = 0
            self.pool = [p for p in self.pool if not has_T(p)]
            return e
        return ('fn', n, cv if parent and parent != ('std',) else '', None, self.params(d))

    def data(self, d):
        parent = self.cls(d) if self.chance(.7) else None
        n = ('ns', parent, self.r.choice(NAMES))
        return ('data', n)

    def local(self, d):
        disc = self.r.choice([None, None, '_0', '_1', '_9'])
        return ('local', self.fn(d, True), self.r.choice(NAMES + [None]), disc)

    def symbol(self, d):
        c = self.r.random()
        if c < .70:
            return self.fn(d)
        if c < .78:
            return self.data(d)
        if c < .86:
            return ('ty', self.r.choice(['TV', 'TT', 'TI', 'TS']), self.cls(d))
        if c < .90:
            return ('ty', self.r.choice(['TI', 'TS']), self.type(d))
        if c < .92:
            return ('GV', self.data(d)[1])
        if c < .95:
            k = self.r.choice(['h8_', 'hn16_', 'v0_n24_', 'v8_n32_', 'ch0_v0_n24_', 'chn8_h16_', 'cv0_n24_v0_n32_'])
            return ('thunk', k, self.fn(d, True))
        if c < .96:
            return ('TC', self.cls(d), self.r.choice([0, 8, 16]), self.cls(d))
        l = self.local(d)
        if l[2] and self.chance(.5):
            # a member function of a local class
            return ('data', l)
        return ('data', l)


def has_T(t):
    return isinstance(t, tuple) and (t[:1] == ('T',) or any(has_T(x) for x in t))


def generate(rng, n):
    """Yields (kind, mangled, features, substitutions used)."""
    for _ in range(n):
        g = Gen(rng)
        m = Mangler()
        d = rng.choice([1, 2, 2, 3, 3, 4])
        if rng.random() < .3:
            t = g.type(d)
            yield 't', m.type(t), m.feat, m.used
        else:
            e = g.symbol(d)
            yield 's', '_Z' + m.encoding(e), m.feat, m.used


def real(hexs):
    if len(hexs) == 8:
        return struct.unpack('>f', bytes.fromhex(hexs))[0]
    return struct.unpack('>d', bytes.fromhex(hexs))[0]
