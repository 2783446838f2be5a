"""Generator of well-defined C programs: interval analysis keeps every
operation defined; every statement reports values through C(id, v)."""

INTS = ['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
SIZE = {'_Bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}
SIGNED = {t: not (t.startswith('unsigned') or t == '_Bool') for t in INTS}
RANK = {'int': 3, 'unsigned': 3, 'long': 4, 'unsigned long': 4, 'long long': 5, 'unsigned long long': 5}
UNS = {'int': 'unsigned', 'long': 'unsigned long', 'long long': 'unsigned long long', 'unsigned': 'unsigned', 'unsigned long': 'unsigned long', 'unsigned long long': 'unsigned long long'}
SHORTN = {'_Bool': 'b', 'char': 'c', 'signed char': 'sc', 'unsigned char': 'uc', 'short': 's', 'unsigned short': 'us', 'int': 'i', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul', 'long long': 'q', 'unsigned long long': 'uq'}


def rng_of(t):
    if t == '_Bool': return 0, 1
    n = SIZE[t] * 8
    return (-(1 << n - 1), (1 << n - 1) - 1) if SIGNED[t] else (0, (1 << n) - 1)


def promote(t):
    return 'int' if t not in RANK else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a == b: return a
    ra, rb = RANK[a], RANK[b]
    if SIGNED[a] == SIGNED[b]: return a if ra >= rb else b
    u, s = (a, b) if not SIGNED[a] else (b, a)
    if RANK[u] >= RANK[s]: return u
    if SIZE[s] > SIZE[u]: return s
    return UNS[s]


def wrap(v, t):
    if t == '_Bool': return int(v != 0)
    n = SIZE[t] * 8
    v &= (1 << n) - 1
    if SIGNED[t] and v >> (n - 1): v -= 1 << n
    return v


def lit(rng, v, t=None):
    """literal text of value v with type t (>= int), or of any type that holds it"""
    if t is None or t not in RANK:
        t2 = 'int' if t not in RANK else t
    else: t2 = t
    suf = {'int': '', 'unsigned': rng.choice('uU'), 'long': rng.choice(['L', 'l']), 'unsigned long': rng.choice(['UL', 'uL', 'LU']), 'long long': rng.choice(['LL', 'll']), 'unsigned long long': rng.choice(['ULL', 'llu'])}[t2]
    lo, hi = rng_of(t2)
    v = wrap(v, t2)
    if v == lo and SIGNED[t2]:
        return '(-%d%s-1)' % (-(lo + 1), suf)
    a = abs(v)
    if not SIGNED[t2] or a <= hi:
        f = rng.choice(['d', 'd', 'x', 'o', 'X', 'b'])
        # hex/octal literals may turn unsigned: only when the value fits the signed type
        s = {'d': '%d' % a, 'x': '0x%x' % a, 'X': '0X%X' % a, 'o': '0%o' % a, 'b': '0b' + bin(a)[2:]}[f]
        if 32 <= a < 127 and t2 == 'int' and rng.random() < .3 and chr(a) not in "'\\":
            s = "'%s'" % chr(a)
        return '(-%s%s)' % (s, '' if s[0] == "'" else suf) if v < 0 else s + ('' if s[0] == "'" else suf)


def boundary(rng, t):
    lo, hi = rng_of(t)
    c = [0, 1, 2, 3, 7, 8, 10, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, lo, hi, hi - 1, lo + 1, hi // 2, hi // 3]
    if rng.random() < .35: v = rng.randrange(lo, hi + 1) >> rng.randrange(0, SIZE[t] * 8)
    else: v = rng.choice(c)
    if SIGNED[t] and rng.random() < .35: v = -v
    if not (lo <= v <= hi): v = wrap(v, t)
    return v


class E:
    __slots__ = ('s', 't', 'lo', 'hi', 'p')

    def __init__(self, s, t, lo=None, hi=None):
        self.s, self.t = s, t
        a, b = rng_of(t)
        self.lo = a if lo is None else lo
        self.hi = b if hi is None else hi


def fits(lo, hi, t):
    a, b = rng_of(t)
    return a <= lo and hi <= b


class Struct:
    def __init__(self, name, fields, union=False):
        self.name, self.fields, self.union = name, fields, union   # fields: (name, kind, info)


class Gen:
    def __init__(self, rng, size=1.0, tag=''):
        self.r = rng
        self.size = size
        self.top = []
        self.ids = 0
        self.uid = 0
        self.structs = []
        self.pure = []       # (name, ret type, [arg types], level)
        self.spure = []      # struct functions (name, struct, [types])
        self.glob = []       # scalar lvalue texts with type
        self.garr = []       # (text, type, n)
        self.gst = []        # (text, Struct)
        self.level = 3
        self.effects = []
        self.const = False
        self.scopes = []
        self.loops = 0
        self.feat = set()
        self.incall = 0
        self.inidx = 0

    # ---- names -------------------------------------------------------------
    def nm(self, p='v'):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def cid(self):
        self.ids += 1
        return self.ids

    def ty(self):
        return self.r.choice(INTS)

    def conv(self, e, t):
        """value range of e converted to t"""
        if fits(e.lo, e.hi, t): return E(e.s, t, e.lo, e.hi)
        return E(e.s, t)

    # ---- leaves ------------------------------------------------------------
    def constant(self, t=None):
        r = self.r
        t = t or r.choice(['int', 'int', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long'])
        v = boundary(r, t)
        if r.random() < .3 and t in RANK: v = wrap(r.choice([0, 1, 2, 4, 8, 16, 64, 1024, -1, 1 << 31, 1 << 32, 255]), t)
        s = lit(r, v, t)
        if s is None:
            s, t, v = '1', 'int', 1
        return E(s, promote(t), v, v)

    def scalars(self):
        out = []
        for sc in self.scopes:
            out += sc
        return out

    def leaf(self):
        r = self.r
        k = r.random()
        if self.const or k < .25:
            if r.random() < .05:
                t = self.ty()
                return E('sizeof(%s)' % t, 'unsigned long', SIZE[t], SIZE[t])
            return self.constant()
        lv = self.lvalue(read=True)
        return lv

    def index(self, n, d=0):
        """an index expression in 0..n-1"""
        r = self.r
        if r.random() < .3 or d <= 0 or self.inidx > 2: return str(r.randrange(n))
        self.inidx += 1
        e = self.expr(d - 1)
        self.inidx -= 1
        if n & (n - 1) == 0 and r.random() < .7:
            return '(%s) & %d' % (e.s, n - 1)
        e = self.cast(e, r.choice(['unsigned', 'unsigned char', 'unsigned long', 'unsigned short']))
        return '%s %% %d' % (e.s, n)

    def field(self, base, st, depth=0):
        """a scalar member lvalue of a struct value text"""
        r = self.r
        for _ in range(10):
            f = r.choice(st.fields)
            n, k, info = f
            if k == 'int': return '%s%s' % (base, n), info, None
            if k == 'bit': return '%s%s' % (base, n), info[0], info[1]
            if k == 'arr': return '%s%s[%s]' % (base, n, self.index(info[1], depth)), info[0], None
            if k == 'st' and depth < 3: return self.field('%s%s.' % (base, n), info, depth + 1)
        f = [x for x in st.fields if x[1] == 'int'][0]
        return base + f[0], f[2], None

    def lvalue(self, read=False, d=1):
        """scalar lvalue (not an effect variable)"""
        r = self.r
        for _ in range(20):
            k = r.random()
            if k < .55:
                c = self.scalars() + self.glob
                c = [x for x in c if x[0] not in self.effects]
                if not c: continue
                s, t = r.choice(c[-12:] if r.random() < .6 else c)
                return E(s, t)
            if k < .75:
                c = self.garr + self.larr()
                if not c: continue
                n, t, dims = r.choice(c)
                if r.random() < .3 and len(dims) == 1:
                    return E(r.choice(['*(%s + (%s))', '(%s)[%s]', '*(&(%s)[%s])']) % (n, self.index(dims[0], d)), t)
                return E(n + ''.join('[%s]' % self.index(x, d) for x in dims), t)
            c = self.gst + self.lst()
            if not c: continue
            n, st, ptr = r.choice(c)
            s, t, w = self.field(n + ('->' if ptr else '.'), st)
            if w:
                if t == '_Bool': return E(s, t)
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if SIGNED[t] else (0, (1 << w) - 1)
                e = E(s, t, lo, hi)
                e.t = t if (w == SIZE[t] * 8) else ('bit', t, w)
                if read:
                    # promoted type of a bit-field: int when it fits
                    pt = 'int' if w < 32 or (w == 32 and SIGNED[t]) else t
                    if SIZE[t] == 8: return self.cast(E(s, t, lo, hi), t)   # compilers differ in the promoted type
                    if w < 32: return E(s, 'int', lo, hi)
                    return E(s, 'int' if SIGNED[t] else 'unsigned', lo, hi)
                return e
            return E(s, t)
        return E('g_fallback', 'int')

    def larr(self):
        return [a for sc in self.ascopes for a in sc]

    def lst(self):
        return [a for sc in self.sscopes for a in sc]

    ascopes, sscopes = [], []

    # ---- expressions -------------------------------------------------------
    def par(self, e):
        return '(' + e.s + ')'

    def cast(self, e, t):
        f = self.conv(e, t)
        if t == '_Bool':
            lo, hi = (0, 1) if e.lo <= 0 <= e.hi else (1, 1)
            if e.lo == e.hi == 0: hi = 0
            return E('((_Bool)%s)' % self.par(e), t, lo, hi)
        return E('((%s)%s)' % (t, self.par(e)), t, f.lo, f.hi)

    def shrink(self, e, bits):
        """an expression with |value| < 2^bits made from e, of an int-or-wider type"""
        r = self.r
        k = r.randrange(4)
        t = promote(e.t)
        if max(abs(e.lo), abs(e.hi)) < (1 << bits): return e
        if bits >= 8 and k == 0: return self.cast(e, r.choice(['signed char', 'unsigned char', 'char']) if bits < 16 else r.choice(['short', 'unsigned short', 'signed char']))
        if k == 1:
            m = (1 << r.randrange(1, bits + 1)) - 1
            return E('(%s & %s)' % (self.par(e), lit(r, m, 'int' if m < 1 << 31 else 'long')), usual(e.t, 'int' if m < 1 << 31 else 'long'), 0, m)
        if k == 2:
            m = r.randrange(2, min(1 << bits, 1 << 30))
            lo = 0 if e.lo >= 0 else 1 - m
            return E('(%s %% %d)' % (self.par(e), m), t, lo, m - 1) if SIGNED[t] else E('(%s %% %du)' % (self.par(e), m), t, 0, m - 1)
        n = SIZE[t] * 8 - bits + 1
        n = max(0, min(n, SIZE[t] * 8 - 1))
        return E('(%s >> %d)' % (self.par(e), n), t, e.lo >> n, e.hi >> n)

    def arith(self, op, a, b):
        r = self.r
        t = usual(a.t, b.t)
        if not SIGNED[t]:
            lo, hi = self.rngop(op, a, b, t)
            return E('%s %s %s' % (self.par(a), op, self.par(b)), t, lo, hi)
        for _ in range(4):
            t = usual(a.t, b.t)
            if not SIGNED[t]: return self.arith(op, a, b)
            c = [x for x in self.corners(op, a, b)]
            if fits(min(c), max(c), t):
                return E('%s %s %s' % (self.par(a), op, self.par(b)), t, min(c), max(c))
            k = r.random()
            if k < .5:
                if r.random() < .5: a = self.cast(a, UNS[t])
                else: b = self.cast(b, UNS[t])
            else:
                bits = (SIZE[t] * 8 - 2) // 2 if op == '*' else SIZE[t] * 8 - 2
                a, b = self.shrink(a, bits), self.shrink(b, bits)
        a = self.cast(a, 'unsigned long long')
        return self.arith(op, a, b)

    def corners(self, op, a, b):
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
        return [f(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]

    def rngop(self, op, a, b, t):
        a, b = self.conv(a, t), self.conv(b, t)
        c = self.corners(op, a, b)
        if fits(min(c), max(c), t): return min(c), max(c)
        return rng_of(t)

    def divmod(self, op, a, b):
        r = self.r
        t = usual(a.t, b.t)
        if SIGNED[t]: # values convert unchanged to a signed common type
            if b.lo <= 0 <= b.hi:
                k = r.random()
                if k < .5 or b.lo == b.hi == 0: b = self.nonzero_const()
                else: b = E('(%s | 1)' % self.par(b), promote(b.t)) if not fits(b.lo, b.hi, '_Bool') else E('(%s + 1)' % self.par(b), 'int', 1, 2)
                return self.divmod(op, a, b)
            if b.lo <= -1 <= b.hi and a.lo <= rng_of(t)[0]:
                if self.const or r.random() < .5: a = self.shrink(a, SIZE[t] * 8 - 2) if SIZE[t] == SIZE[promote(a.t)] else self.shrink(a, 20)
                else: b = E('(%s & 0x7f | 1)' % self.par(b), usual(b.t, 'int'), 1, 127)
                if a.lo <= rng_of(t)[0]: a = self.cast(a, 'short')
                return self.divmod(op, a, b)
        else:
            cb = self.conv(b, t)
            if cb.lo <= 0:
                b = E('(%s | 1)' % self.par(b), promote(b.t), None, None) if r.random() < .5 and not (b.lo == b.hi) else self.nonzero_const()
                if not SIGNED[usual(a.t, b.t)]:
                    # x|1 in any type converts to a non-zero value
                    return E('%s %s %s' % (self.par(a), op, self.par(b)), usual(a.t, b.t))
                return self.divmod(op, a, b)
        return E('%s %s %s' % (self.par(a), op, self.par(b)), t)

    def nonzero_const(self):
        r = self.r
        t = r.choice(['int', 'unsigned', 'long', 'unsigned long long'])
        v = r.choice([1, 2, 3, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 65536, 1 << 30, (1 << 31) - 1] + ([1 << 31, 1 << 32, 1 << 62, 10 ** 12] if SIZE[t] == 8 else []))
        if SIGNED[t] and r.random() < .3 and v > 1: v = -v
        return E(lit(r, v, t), t, v, v)

    def shift(self, op, a, b):
        r = self.r
        t = promote(a.t)
        w = SIZE[t] * 8
        if not (0 <= b.lo and b.hi < w):
            if r.random() < .4 or b.lo == b.hi:
                v = r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 48, 62, 63]) % w
                b = E(lit(r, v, r.choice(['int', 'unsigned', 'long'])), 'int', v, v)
            else: b = E('(%s & %d)' % (self.par(b), w - 1), usual(b.t, 'int'), 0, w - 1)
        if op == '<<' and SIGNED[t]:
            if not (a.lo >= 0 and (a.hi << b.hi) <= rng_of(t)[1]):
                a = self.cast(a, UNS[t])
                t = UNS[t]
            else: return E('%s << %s' % (self.par(a), self.par(b)), t, a.lo << b.lo, a.hi << b.hi)
        if op == '>>':
            lo = a.lo >> (b.lo if a.lo < 0 else b.hi)
            hi = a.hi >> (b.lo if a.hi >= 0 else b.hi)
            return E('%s >> %s' % (self.par(a), self.par(b)), t, lo, hi)
        return E('%s << %s' % (self.par(a), self.par(b)), t)

    def bit(self, op, a, b):
        t = usual(a.t, b.t)
        x, y = self.conv(a, t), self.conv(b, t)
        if x.lo >= 0 and y.lo >= 0:
            if op == '&': return E('%s & %s' % (self.par(a), self.par(b)), t, 0, min(x.hi, y.hi))
            m = (1 << max(x.hi.bit_length(), y.hi.bit_length())) - 1
            return E('%s %s %s' % (self.par(a), op, self.par(b)), t, 0, m)
        return E('%s %s %s' % (self.par(a), op, self.par(b)), t)

    def cmp(self, a, b):
        return E('%s %s %s' % (self.par(a), self.r.choice(['<', '>', '<=', '>=', '==', '!=']), self.par(b)), 'int', 0, 1)

    def cond(self, d):
        """a condition"""
        r = self.r
        k = r.random()
        if k < .5: return self.cmp(self.expr(d - 1), self.expr(d - 1))
        if k < .75: return self.expr(d)
        if d > 0:
            a, b = self.cond(d - 1), self.cond(d - 1)
            return E('(%s) %s (%s)' % (a.s, r.choice(['&&', '||']), b.s), 'int', 0, 1)
        return self.expr(d)

    def join(self, t, a, b):
        a, b = self.conv(a, t), self.conv(b, t)
        return min(a.lo, b.lo), max(a.hi, b.hi)

    def expr(self, d=3):
        r = self.r
        if d <= 0 or r.random() < .08:
            return self.leaf()
        k = r.random()
        if k < .28:
            a, b = self.expr(d - 1), self.expr(d - 1)
            return self.arith(r.choice('+-*'), a, b)
        if k < .36: return self.divmod(r.choice('/%'), self.expr(d - 1), self.expr(d - 1))
        if k < .46: return self.shift(r.choice(['<<', '>>']), self.expr(d - 1), self.expr(d - 1))
        if k < .57: return self.bit(r.choice('&|^'), self.expr(d - 1), self.expr(d - 1))
        if k < .63: return self.cond(d)
        if k < .71: return self.cast(self.expr(d - 1), self.ty())
        if k < .77:
            op = r.choice('-~!+')
            e = self.expr(d - 1)
            t = promote(e.t)
            if op == '!': return E('!%s' % self.par(e), 'int', 0, 1)
            if op == '+': return E('+%s' % self.par(e), t, e.lo, e.hi)
            if op == '~': return E('~%s' % self.par(e), t, *((~e.hi, ~e.lo) if SIGNED[t] else (None, None)))
            if SIGNED[t]:
                if e.lo <= rng_of(t)[0]: e = self.cast(e, UNS[t]); t = UNS[t]
                else: return E('-%s' % self.par(e), t, -e.hi, -e.lo)
            return E('-%s' % self.par(e), t)
        if k < .84:
            c, a, b = self.cond(d - 1), self.expr(d - 1), self.expr(d - 1)
            t = usual(a.t, b.t)
            if r.random() < .15 and not self.const:
                # GNU ?: without the middle
                t = usual(a.t, b.t)
                return E('%s ?: %s' % (self.par(a), self.par(b)), t, *self.join(t, a, b))
            return E('(%s) ? %s : %s' % (c.s, self.par(a), self.par(b)), t, *self.join(t, a, b))
        if self.const:
            return self.expr(d - 1)
        if k < .91 and self.pure:
            f = self.call(d)
            if f: return f
        if k < .93:
            a, b = self.expr(d - 2), self.expr(d - 1)
            # the type of a comma expression that ends in a bit-field is disputed
            return E('(%s, (%s)%s)' % (self.par(a), b.t, self.par(b)), b.t, b.lo, b.hi)
        if k < .95:
            t = self.ty()
            n = r.choice([1, 2, 4])
            es = [self.expr(d - 2) for _ in range(n)]
            return E('((%s[]){%s}[%s])' % (t, ', '.join(x.s for x in es), self.index(n, d - 1)), t)
        if k < .97:
            t = self.ty()
            v = self.nm('x')
            a = self.expr(d - 1)
            self.scopes.append([(v, t)])
            b = self.expr(d - 1)
            self.scopes.pop()
            self.feat.add('stmtexpr')
            return E('({ %s %s = %s; %s; })' % (t, v, a.s, b.s), b.t, b.lo, b.hi)
        if k < .985:
            e = self.expr(d - 1)
            pt = promote(e.t)
            return E('_Generic(%s, int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, default: 7)' % ('+' + self.par(e)), 'int', 1, 7)
        e = self.expr(d - 1)
        return E('(int)__builtin_expect(!!%s, 1)' % self.par(e), 'int', 0, 1)

    def call(self, d):
        r = self.r
        c = [f for f in self.pure if f[3] < self.level]
        if not c or self.incall > 2: return None
        f = r.choice(c[-6:])
        self.incall += 1
        a = [self.expr(d - 2).s for _ in f[2]]
        self.incall -= 1
        s = '%s(%s)' % (f[0] if r.random() < .8 else '(*%s)' % r.choice([f[0], '&' + f[0]]), ', '.join('(%s)' % x if ',' in x else x for x in a))
        return E(s, f[1])

    # effect expressions: at most one per effect variable and full expression
    def effexpr(self, d):
        """an expression with side effects on one variable that occurs nowhere else in it"""
        r = self.r
        c = [x for x in self.scalars() + self.glob if x[0].startswith(('v', 'g')) and x[0] not in self.effects]
        if not c: return self.expr(d)
        n, t = r.choice(c)
        if t == '_Bool': return self.expr(d)
        self.effects.append(n)
        try:
            if SIGNED[t] and t in RANK:
                e = self.expr(d - 1)
                e = E('(%s = %s)' % (n, e.s), t)
            else:
                k = r.random()
                if k < .6: e = E(r.choice(['%s++', '++%s', '%s--', '--%s']) % n, t)
                else:
                    x = self.expr(d - 2)
                    if t in RANK: e = E('(%s %s= %s)' % (n, r.choice('+-*&|^'), x.s), t)
                    else:
                        x = self.shrink(x, 12)
                        e = E('(%s %s= %s)' % (n, r.choice('+-&|^'), x.s), t)
            k = r.random()
            if k < .3: return self.arith(r.choice('+-*'), e, self.expr(d - 1))
            if k < .5:
                f = self.cond(d - 1)
                return E('(%s) %s %s' % (f.s, r.choice(['&&', '||']), self.par(e)), 'int', 0, 1)
            if k < .7:
                f, g = self.cond(d - 1), self.expr(d - 1)
                t2 = usual(e.t, g.t)
                return E('(%s) ? %s : %s' % (f.s, self.par(e), self.par(g)), t2)
            if k < .85: return self.bit(r.choice('&|^'), self.expr(d - 1), e)
            return self.cmp(e, self.expr(d - 1))
        finally:
            self.effects.pop()

    # ---- statements --------------------------------------------------------
    def chk(self, s):
        return 'C(%d, %s);' % (self.cid(), s)

    def assign(self, d):
        r = self.r
        l = self.lvalue()
        if isinstance(l.t, tuple):
            t = l.t[1]
            small = True
        else: t, small = l.t, l.t not in RANK
        k = r.random()
        e = self.effexpr(d) if r.random() < .25 and not any(x in l.s for x in '[') else self.expr(d)
        # an effect on a variable that the lvalue mentions would be unsequenced: plain lvalues only
        if k < .45 or isinstance(l.t, tuple) and SIZE[t] == 8 and r.random() < .5:
            s = '%s = %s;' % (l.s, e.s)
            if l.s in e.s and ('++' in e.s or '--' in e.s or '= ' in e.s.replace('== ', '').replace('!= ', '').replace('<= ', '').replace('>= ', '')):
                e = self.expr(d)
                s = '%s = %s;' % (l.s, e.s)
        else:
            e = self.expr(d)
            op = r.choice(['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'])
            le = E(l.s, t if not isinstance(l.t, tuple) else t, l.lo, l.hi)
            if t == '_Bool': op = r.choice('|&^+')
            if isinstance(l.t, tuple) and SIZE[t] == 8 and op not in '&|^': op = '^'
            pl = promote(t)
            if isinstance(l.t, tuple) and l.t[2] < 32: pl = 'int'
            if op in '+-*':
                ct = usual(pl, e.t)
                if SIGNED[ct]:
                    if small and SIZE[ct] == 4 and not fits(*self._mm(op, le, e), ct): e = self.shrink(e, 10 if op == '*' else 20)
                    ct = usual(pl, e.t)
                    if SIGNED[ct] and not fits(*self._mm(op, le, e), ct): e = self.cast(e, UNS[ct])
            elif op in '/%':
                e = self.nonzero_const()
                if e.lo < 0:
                    ct = usual(pl, e.t)
                    if SIGNED[ct] and e.lo == -1: e = E('3', 'int', 3, 3)
            elif op in ('<<', '>>'):
                w = SIZE[pl] * 8
                if op == '<<' and SIGNED[pl]:
                    if small and l.lo >= 0: w = 8
                    else: op = '>>'
                v = r.randrange(w)
                e = E(str(v), 'int', v, v) if r.random() < .5 else E('(%s & %d)' % (self.par(e), w - 1 if w & (w - 1) == 0 else 7), usual(e.t, 'int'), 0, w - 1)
            s = '%s %s= %s;' % (l.s, op, e.s)
        if ('[' in l.s or '(' in l.s) and not l.s.startswith('('):
            return s + ' ' + self.chk(l.s)
        return s + ' ' + self.chk(l.s)

    def _mm(self, op, a, b):
        c = self.corners(op, a, b)
        return min(c), max(c)

    def decl(self, d=2):
        r = self.r
        t = self.ty()
        n = self.nm()
        q = r.choice(['', '', '', '', 'volatile ', 'register ', 'const ', 'static '])
        if self.loops and q == 'static ': q = ''
        if q == 'static ':
            self.const = True
            e = self.expr(d)
            self.const = False
        else: e = self.expr(d)
        s = '%s%s %s = %s;' % (q, t, n, e.s)
        if q == 'const ':
            n2 = n
            self.scopes[-1].append(('(%s)' % n2, t)) if False else None
            return s + ' ' + self.chk(n)
        if q == 'register ': return s + ' ' + self.chk(n)
        self.scopes[-1].append((n, t))
        return s

    def declarr(self):
        r = self.r
        t = self.ty()
        n = self.nm('a')
        dims = r.choice([[2], [4], [8], [5], [2, 4], [3, 2], [2, 2, 2], [16]])
        tot = 1
        for x in dims: tot *= x
        if r.random() < .25 and len(dims) < 3:
            # variable length array
            vs = []
            out = ''
            for x in dims:
                v = self.nm('n')
                out += 'int %s = %d + (int)(%s & 0); ' % (v, x, self.par(self.expr(1)))
                vs.append(v)
            out += '%s %s%s; ' % (t, n, ''.join('[%s]' % v for v in vs))
            out += 'for (int i_ = 0; i_ < %d; i_++) ((%s *)%s)[i_] = (%s)(i_ * %d + 1); ' % (tot, t, n, t, r.randrange(1, 50))
            out += self.chk('sizeof %s' % n)
            self.feat.add('vla')
            self.ascopes[-1].append((n, t, dims))
            return out
        k = r.random()
        st = r.random() < .15 and not self.loops
        self.const = st
        es = [self.expr(1).s for _ in range(r.randrange(1, tot + 1))]
        self.const = False
        es = ['(%s)' % x if ',' in x else x for x in es]
        if len(dims) == 1 and k < .3:
            idx = sorted(r.sample(range(dims[0]), min(len(es), r.randrange(1, dims[0] + 1))))
            init = ', '.join('[%d] = %s' % (i, es[j]) for j, i in enumerate(idx))
        else: init = ', '.join(es)
        s = '%s%s %s%s = { %s };' % ('static ' if st else '', t, n, ''.join('[%d]' % x for x in dims), init)
        self.ascopes[-1].append((n, t, dims))
        return s

    def sinit(self, st, const=False, d=0):
        """initialiser text of a struct"""
        r = self.r
        self_const = self.const
        self.const = const or self_const
        out = []
        fs = st.fields
        if st.union: fs = [r.choice([f for f in st.fields if f[1] in ('int', 'arr')])]
        desig = st.union or r.random() < .4
        fs = [f for f in fs if f[0]]
        if desig and not st.union:
            fs = [f for f in fs if r.random() < .6] or fs[:1]
            r.shuffle(fs)
        elif r.random() < .3: fs = fs[:r.randrange(1, len(fs) + 1)]
        for n, k, info in fs:
            if k == 'int': v = self.expr(1).s
            elif k == 'bit': v = self.expr(1).s
            elif k == 'arr': v = '{ ' + ', '.join('(%s)' % self.expr(1).s for _ in range(r.randrange(1, info[1] + 1))) + ' }'
            else: v = self.sinit(info, const, d + 1)
            if not v.startswith('{'): v = '(%s)' % v
            out.append(('.%s = ' % n if desig else '') + v)
        self.const = self_const
        return '{ ' + ', '.join(out) + ' }'

    def declst(self):
        r = self.r
        if not self.structs: return self.decl()
        st = r.choice(self.structs)
        n = self.nm('t')
        k = r.random()
        kw = 'union' if st.union else 'struct'
        if k < .35:
            s = '%s %s %s = %s;' % (kw, st.name, n, self.sinit(st))
        elif k < .5:
            s = '%s %s %s = (%s %s)%s;' % (kw, st.name, n, kw, st.name, self.sinit(st))
        elif k < .8 and [x for x in self.gst + self.lst() if x[1] is st]:
            o = r.choice([x for x in self.gst + self.lst() if x[1] is st])
            s = '%s %s %s = %s%s;' % (kw, st.name, n, '*' if o[2] else '', o[0])
        elif k < .9 and [f for f in self.spure if f[1] is st]:
            f = r.choice([f for f in self.spure if f[1] is st])
            s = '%s %s %s = %s(%s);' % (kw, st.name, n, f[0], ', '.join('(%s)' % self.expr(1).s for _ in f[2]))
        else:
            c = [x for x in self.gst + self.lst() if x[1] is st and not x[2]]
            if c:
                o = r.choice(c)
                s = '%s %s *%s = &%s;' % (kw, st.name, n, o[0])
                self.sscopes[-1].append((n, st, True))
                return s + ' ' + self.stchk(n, st, True)
            s = '%s %s %s = %s;' % (kw, st.name, n, self.sinit(st))
        self.sscopes[-1].append((n, st, False))
        return s + ' ' + self.stchk(n, st, False)

    def stchk(self, n, st, ptr):
        if st.union or self.chk("x") == "":
            return ''
        out = []

        def rec(base, st):
            for f, k, info in st.fields:
                if not f: continue
                if k in ('int', 'bit'): out.append('C(%d, %s%s);' % (self.cid(), base, f))
                elif k == 'arr': out.append('for (int i_ = 0; i_ < %d; i_++) C(%d, %s%s[i_]);' % (info[1], self.cid(), base, f))
                elif not info.union: rec('%s%s.' % (base, f), info)
        rec(n + ('->' if ptr else '.'), st)
        return ' '.join(out)

    def stassign(self):
        r = self.r
        c = self.gst + self.lst()
        if not c: return self.assign(2)
        a = r.choice(c)
        o = [x for x in c if x[1] is a[1]]
        b = r.choice(o)
        dst = ('*' if a[2] else '') + a[0]
        k = r.random()
        fs = [f for f in self.spure if f[1] is a[1] and f[3] < self.level]
        if k < .4: src = ('*' if b[2] else '') + b[0]
        elif k < .6 and fs:
            f = r.choice(fs)
            src = '%s(%s)' % (f[0], ', '.join('(%s)' % self.expr(1).s for _ in f[2]))
        elif k < .75:
            src = '(%s) ? %s : %s' % (self.cond(1).s, ('*' if b[2] else '') + b[0], ('*' if a[2] else '') + a[0])
        else: src = '(%s %s)%s' % ('union' if a[1].union else 'struct', a[1].name, self.sinit(a[1]))
        return '%s = %s; %s' % (dst, src, self.stchk(a[0], a[1], a[2]))

    def push(self):
        self.scopes.append([]); self.ascopes.append([]); self.sscopes.append([])

    def pop(self):
        self.scopes.pop(); self.ascopes.pop(); self.sscopes.pop()

    def block(self, n, depth):
        self.push()
        out = []
        for _ in range(n):
            out.append(self.stmt(depth))
        self.pop()
        return '{ ' + '\n  '.join(out) + ' }'

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .40: return self.assign(r.choice([1, 2, 2, 3, 4]))
        if k < .46: return self.decl()
        if k < .50: return self.declarr()
        if k < .55: return self.declst()
        if k < .59: return self.stassign()
        if k < .63:
            return self.chk(self.effexpr(3).s)
        if k < .74:
            s = 'if (%s) %s' % (self.effexpr(3).s if r.random() < .2 else self.cond(3).s, self.block(r.randrange(1, 3), depth - 1))
            if r.random() < .6: s += ' else ' + (self.block(r.randrange(1, 3), depth - 1) if r.random() < .8 else 'if (%s) %s' % (self.cond(2).s, self.block(1, depth - 1)))
            return s
        if k < .86: return self.loop(depth)
        if k < .94: return self.switch(depth)
        if k < .96: return self.gotos(depth)
        if k < .98: return self.ptrs()
        return self.block(r.randrange(1, 4), depth - 1)

    def loop(self, depth):
        r = self.r
        if self.loops >= 2: return self.assign(2)
        i = self.nm('i')
        t = r.choice(['int', 'unsigned', 'unsigned char', 'short', 'long', 'unsigned long long', 'signed char'])
        n = r.choice([1, 2, 3, 4, 5])
        self.loops += 1
        self.push()
        self.scopes[-1].append(('(%s + 0)' % i, promote(t)))
        # the counter is readable only
        rd = self.scopes[-1]
        body = []
        lvs = self.scopes[-1]
        saved = list(lvs)
        lvs.clear()
        for _ in range(r.randrange(1, 4)):
            if r.random() < .15: body.append('if (%s) { %s }' % (self.cond(2).s if r.random() < .5 else '%s == %d' % (i, r.randrange(n)), r.choice(['break;', 'continue;'])))
            body.append(self.stmt(depth - 1))
        body.insert(r.randrange(len(body) + 1), self.chk(i))
        self.pop()
        self.loops -= 1
        # a declaration after 'continue' is fine
        b = '\n  '.join(body)
        k = r.randrange(5)
        st = r.choice([1, 1, 1, 2, 3])
        if k == 0: return 'for (%s %s = 0; %s < %d; %s++) { %s }' % (t, i, i, n, i, b)
        if k == 1: return '{ %s %s; for (%s = %d; %s %s 0; %s) { %s } }' % (t, i, i, n * st, i, '>' if SIGNED[t] and t != 'unsigned' else '!=', '%s -= %d' % (i, st), b)
        if k == 2: return '{ %s %s = 0; while (%s++ < %d) { %s } }' % (t, i, i, n, b)
        if k == 3: return '{ %s %s = %d; do { %s } while (--%s != 0); }' % (t, i, n, b, i)
        return '{ %s %s = 0; for (;;) { if (%s >= %d) break; %s++; %s } }' % (t, i, i, n, i, b)

    def switch(self, depth):
        r = self.r
        t = r.choice(['int', 'unsigned', 'long long', 'unsigned long', 'unsigned char', 'signed char', 'short', 'long'])
        kind = r.randrange(4)
        lo, hi = rng_of(t)
        cases = set()
        if kind == 0: base = r.choice([0, -3, 100, lo, hi - 12]); cases = {base + i for i in range(r.randrange(1, 12))}
        elif kind == 1: cases = {boundary(r, t) for _ in range(r.randrange(1, 9))}
        elif kind == 2: cases = {r.randrange(-128, 128) for _ in range(r.randrange(2, 25))}
        else: cases = {1 << i for i in range(0, SIZE[t] * 8 - 1, r.choice([1, 3, 7]))}
        cases = sorted(c for c in cases if lo <= c <= hi)
        if not cases: return self.assign(2)
        if r.random() < .5: sel = '(%s)(%s)' % (t, self.expr(2).s)
        elif r.random() < .5: sel = '(%s)%s' % (t, lit(r, r.choice(cases), promote(t)))
        else:
            m = r.choice(cases)
            sel = '(%s)(%s + %s)' % (t, self.par(self.shrink(self.expr(2), 3)), lit(r, m, 'unsigned long long'))
        order = cases[:]
        if r.random() < .6: r.shuffle(order)
        out = []
        dpos = r.randrange(len(order) + 1) if r.random() < .8 else -1
        prevd = None
        used = set(order)
        ll = 'long long' if SIGNED[t] else 'unsigned long long'
        for i, c in enumerate(order):
            if i == dpos: out.append('default: %s %s' % (self.chk(str(i + 1000)), r.choice(['break;', '', 'break;'])))
            if r.random() < .15:
                nx = [x for x in cases if x > c]
                top = min([c + r.choice([1, 2, 10, 1000])] + [nx[0] - 1 if nx else hi] + [hi])
                out.append('case %s ... %s:' % (lit(r, c, promote(t) if c != lo or True else ll), lit(r, top, promote(t))))
            else: out.append('case %s:' % lit(r, c, promote(t)))
            if r.random() < .8: out.append((self.block(1, depth - 1) if r.random() < .4 else self.chk(str(i))) + r.choice([' break;', ' break;', '']))
        if dpos == len(order): out.append('default: ' + self.chk('999'))
        out.append(';')
        return 'switch (%s) { %s }' % (sel, '\n  '.join(out))

    def gotos(self, depth):
        r = self.r
        l, c = self.nm('L'), self.nm('k')
        if r.random() < .5:
            # bounded backward jump
            self.loops += 1
            b = self.block(2, depth - 1) if self.loops < 3 else self.assign(2)
            self.loops -= 1
            return '{ int %s = 0; %s: ; %s if (++%s < %d) goto %s; %s }' % (c, l, b, c, r.randrange(1, 4), l, self.chk(c))
        # computed goto state machine
        n = r.randrange(2, 5)
        labs = [self.nm('S') for _ in range(n)]
        self.feat.add('computed goto')
        s = '{ static void *const tab_[] = { %s }; unsigned %s = %s; int n_ = 0;\n' % (', '.join('&&' + x for x in labs), c, self.cast(self.expr(2), 'unsigned').s)
        s += '  goto *tab_[%s %% %d];\n' % (c, n)
        for x in labs:
            s += '  %s: %s %s = %s * 5 + %d; if (++n_ < 6) goto *tab_[(%s >> 3) %% %d]; goto %s;\n' % (x, self.chk(c), c, c, r.randrange(9), c, n, l)
        return s + '  %s: ; %s }' % (l, self.chk('n_'))

    def ptrs(self):
        r = self.r
        c = [a for a in self.garr + self.larr() if len(a[2]) == 1]
        if not c: return self.assign(2)
        n, t, dims = r.choice(c)
        p, q = self.nm('p'), self.nm('p')
        m = dims[0]
        k = r.randrange(m)
        self.feat.add('pointers')
        out = ['%s *%s = %s + %d, *%s = &%s[%d];' % (t, p, n, k, q, n, r.randrange(m))]
        out.append(self.chk('%s - %s' % (p, q)))
        out.append(self.chk('%s %s %s' % (p, r.choice(['<', '>', '==', '!=', '<=', '>=']), q)))
        out.append(self.chk('(char *)%s - (char *)%s' % (p, n)))
        out.append(self.chk('%s[%d]' % (p, -k + r.randrange(m))))
        ix = r.choice(['signed char', 'short', 'int', 'long', 'unsigned char', 'unsigned short', 'long long'])
        j = -k + r.randrange(m)
        if not SIGNED[ix] and j < 0: ix = 'int'
        out.append('{ %s j_ = %d; %s %s %s %s }' % (ix, j, self.chk('%s[j_]' % p), self.chk('j_[%s]' % p), self.chk('*(%s + j_)' % p), self.chk('(%s + j_) - %s' % (p, n))))
        e = self.shrink(self.expr(2), 8)
        out.append('%s = %s; while (%s < %s + %d) { %s *%s++ = %s; }' % (p, n, p, n, m, self.chk('*' + p), p, e.s) if r.random() < .5 else
                   '%s = %s + %d; do { --%s; %s } while (%s != %s);' % (p, n, m, p, self.chk('*' + p), p, n))
        out.append('{ %s **pp_ = &%s; *pp_ = %s; %s }' % (t, q, n, self.chk('**pp_')))
        if r.random() < .4: out.append('%s = %s; %s %s %s' % (p, n, p, '+= %d;' % (m - 1), self.chk('*' + p)) + ' %s -= %d; %s' % (p, m - 1, self.chk('*%s++' % p)))
        return '{ ' + '\n  '.join(out) + ' }'

    # ---- top level ---------------------------------------------------------
    def mkstruct(self):
        r = self.r
        n = self.nm('S')
        union = r.random() < .15
        fs = []
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            if k < .45: fs.append((self.nm('m'), 'int', self.ty()))
            elif k < .7:
                t = r.choice(['int', 'unsigned', 'int', 'unsigned', 'unsigned char', 'signed char', 'short', 'unsigned short', 'long', 'unsigned long', '_Bool'])
                w = r.randrange(1, (1 if t == '_Bool' else SIZE[t] * 8) + 1)
                fs.append((self.nm('m'), 'bit', (t, w)))
            elif k < .88 or not self.structs: fs.append((self.nm('m'), 'arr', (self.ty(), r.choice([1, 2, 4, 8, 3]))))
            else: fs.append((self.nm('m'), 'st', r.choice(self.structs)))
        if not any(f[1] == 'int' for f in fs): fs.append((self.nm('m'), 'int', self.ty()))
        if union:
            # only one member is ever used: all accesses go through the first int member
            f = [f for f in fs if f[1] == 'int'][0]
            extra = [g for g in fs if g is not f]
            decl = fs
            st = Struct(n, [f], True)
        else:
            decl = fs
            st = Struct(n, fs, False)
        txt = '%s %s { ' % ('union' if union else 'struct', n)
        for f, k, info in decl:
            if k == 'int': txt += '%s %s; ' % (info, f)
            elif k == 'bit': txt += '%s %s : %d; ' % (info[0], f, info[1])
            elif k == 'arr': txt += '%s %s[%d]; ' % (info[0], f, info[1])
            else: txt += '%s %s %s; ' % ('union' if info.union else 'struct', info.name, f)
        self.top.append(txt + '};')
        self.structs.append(st)

    def function(self, level, pure=True):
        r = self.r
        self.level = level
        name = self.nm('f')
        ret = self.ty()
        args = [(self.nm('v'), self.ty()) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6, 7, 9]))]
        self.ascopes, self.sscopes, self.scopes = [], [], []
        self.push()
        self.scopes[-1] += args
        body = []
        saveg = self.glob, self.garr, self.gst
        if pure:
            # globals are only read: expose them as rvalues
            self.glob, self.garr, self.gst = [], [], []
        q = self.chk
        if pure:
            self.chk = lambda s: ''
            for _ in range(r.randrange(1, 4)): body.append(self.decl(2))
        for _ in range(r.randrange(1, 3) if pure else int(r.randrange(4, 9) * self.size)):
            body.append(self.stmt(1 if pure else 3))
        self.glob, self.garr, self.gst = saveg
        # static locals make a function impure
        if pure:
            body = [b.replace('static void', 'STATIC_VOID').replace('static ', '').replace('STATIC_VOID', 'static void') for b in body]
        e = self.expr(3)
        self.chk = q
        self.pop()
        sig = '%s%s %s(%s)' % (r.choice(['', 'static ', 'static inline ']), ret, name, ', '.join('%s %s' % (t, n) for n, t in args) or 'void')
        self.top.append('%s\n{\n  %s\n  return %s;\n}' % (sig, '\n  '.join(body), e.s))
        if pure: self.pure.append((name, ret, [t for n, t in args], level))
        else: self.procs.append((name, ret, [t for n, t in args]))

    def sfunction(self, level):
        r = self.r
        if not self.structs: return
        st = r.choice(self.structs)
        kw = 'union' if st.union else 'struct'
        name = self.nm('sf')
        args = [(self.nm('v'), self.ty()) for _ in range(r.choice([0, 1, 2, 5, 7]))]
        self.level = level
        self.ascopes, self.sscopes, self.scopes = [], [], []
        self.push()
        self.scopes[-1] += args
        saveg = self.glob, self.garr, self.gst
        self.glob, self.garr, self.gst = [], [], []
        q = self.chk
        self.chk = lambda s: ''
        v = self.nm('t')
        init = self.sinit(st)
        self.sscopes[-1].append((v, st, False))
        body = [self.assign(2) for _ in range(2)]
        self.chk = q
        self.glob, self.garr, self.gst = saveg
        self.pop()
        self.top.append('static %s %s %s(%s)\n{\n  %s %s %s = %s;\n  %s\n  return %s;\n}' % (kw, st.name, name, ', '.join('%s %s' % (t, n) for n, t in args) or 'void', kw, st.name, v, init, '\n  '.join(body), v))
        self.spure.append((name, st, [t for n, t in args], level))
        # a consumer by value
        n2 = self.nm('f')
        s, t, w = self.field('x_.', st)
        self.top.append('static %s %s(int a_, %s %s x_, long b_) { return (%s)(a_ + (%s) + b_); }' % ('long long', n2, kw, st.name, 'unsigned long long', '(unsigned long long)%s' % s))
        self.sconsumers.append((n2, st))

    def constcheck(self):
        """a constant expression against the same expression on volatile operands"""
        r = self.r
        self.const = True
        e = self.expr(r.choice([2, 3, 4]))
        self.const = False
        t = r.choice(['int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned char', 'signed char', 'long long', '_Bool'])
        n = self.nm('cc')
        if not self.const_ok(e.s): return None
        self.top.append('static %s %s = %s;' % (t, n, e.s))
        return 'C(%d, %s); C(%d, %s);' % (self.cid(), n, self.cid(), e.s)

    def const_ok(self, s):
        return not any(x in s for x in ('({', '){', '__builtin'))

    def program(self):
        r = self.r
        self.procs, self.sconsumers = [], []
        self.scopes, self.ascopes, self.sscopes = [], [], []
        head = '''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static unsigned cnt_[%d]; static unsigned long long h_;
static void C(int id, unsigned long long v) { h_ = (h_ ^ v) * 1099511628211ull + id; if (cnt_[id]++ < 6) printf("%%d:%%llx\\n", id, v); }
int g_fallback = 5;
'''
        for _ in range(r.randrange(1, 5)): self.mkstruct()
        for _ in range(r.randrange(3, 9)):
            t, n = self.ty(), self.nm('g')
            self.const = True
            e = self.expr(2)
            self.const = False
            if not self.const_ok(e.s): e = self.constant()
            self.top.append('%s%s %s = %s;' % (r.choice(['', 'static ', 'volatile ', 'static volatile ']), t, n, e.s))
            self.glob.append((n, t))
        for _ in range(r.randrange(1, 4)):
            t, n = self.ty(), self.nm('ga')
            dims = r.choice([[4], [8], [16], [2, 3], [4, 2], [2, 2, 2]])
            self.const = True
            es = ['(%s)' % self.constant().s for _ in range(r.randrange(1, 5))]
            self.const = False
            self.top.append('%s %s%s = { %s };' % (t, n, ''.join('[%d]' % x for x in dims), ', '.join(es)))
            self.garr.append((n, t, dims))
        for _ in range(r.randrange(1, 4)):
            st = r.choice(self.structs)
            n = self.nm('gs')
            self.top.append('%s %s %s = %s;' % ('union' if st.union else 'struct', st.name, n, self.sinit(st, True)))
            self.gst.append((n, st, False))
        cc = [self.constcheck() for _ in range(int(6 * self.size))]
        for lv in range(3):
            for _ in range(r.randrange(1, 4)): self.function(lv)
            if r.random() < .7: self.sfunction(lv)
        for _ in range(int(r.randrange(2, 5))): self.function(3, pure=False)
        self.level = 3
        self.ascopes, self.sscopes, self.scopes = [], [], []
        self.push()
        main = [c for c in cc if c]
        for n, ret, ats in self.procs:
            for _ in range(r.randrange(1, 3)):
                main.append('C(%d, %s(%s));' % (self.cid(), n, ', '.join('(%s)' % self.constant(promote(t) if t in RANK else None).s for t in ats)))
        for n, st in self.sconsumers:
            c = [x for x in self.gst if x[1] is st]
            if c: main.append('C(%d, %s(%d, %s, %d));' % (self.cid(), n, r.randrange(100), c[0][0], r.randrange(100)))
        for n, t in self.glob: main.append('C(%d, %s);' % (self.cid(), n))
        for n, t, dims in self.garr:
            tot = 1
            for x in dims: tot *= x
            main.append('for (int i_ = 0; i_ < %d; i_++) C(%d, ((%s *)%s)[i_]);' % (tot, self.cid(), t, n))
        for n, st, p in self.gst: main.append(self.stchk(n, st, False))
        self.pop()
        main.append('printf("%llx\\n", h_); return (int)(h_ & 0x7f);')
        return head % (self.ids + 2) + '\n'.join(self.top) + '\nint main(void)\n{\n  ' + '\n  '.join(main) + '\n}\n'


def program(rng, size=1.0):
    g = Gen(rng, size)
    return g.program(), g
