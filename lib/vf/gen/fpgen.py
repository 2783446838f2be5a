"""Floating-point programs. Values are kept as exact rationals or special names
so that conversions are only generated where they are defined."""
import math, struct
from fractions import Fraction as Fr

FT = {'float': (24, -149, 128), 'double': (53, -1074, 1024), 'long double': (64, -16445, 16384)}
SUF = {'float': 'f', 'double': '', 'long double': 'L'}
IT = {'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned': (32, 0),
      'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), '_Bool': (1, 0), 'char': (8, 1)}
INF = {'float': '1e999f', 'double': '1e999', 'long double': '1e9999L'}
NAN = {'float': '(0.0f/0.0f)', 'double': '(0.0/0.0)', 'long double': '(0.0L/0.0L)'}
PRELUDE = r'''
#include <stdio.h>
#include <string.h>
#define NI __attribute__((noinline))
static NI void pf(int id, float x) { unsigned u; if (x != x) { printf("%d:f nan\n", id); return; } memcpy(&u, &x, 4); printf("%d:f %08x\n", id, u); }
static NI void pd(int id, double x) { unsigned long long u; if (x != x) { printf("%d:d nan\n", id); return; } memcpy(&u, &x, 8); printf("%d:d %016llx\n", id, u); }
static NI void pl(int id, long double x) { unsigned char u[16] = {0}; if (x != x) { printf("%d:l nan\n", id); return; } memcpy(u, &x, 10);
  printf("%d:l ", id); for (int i = 9; i >= 0; i--) printf("%02x", u[i]); printf("\n"); }
static NI void pi(int id, long long x) { printf("%d:i %llx\n", id, x); }
static NI void pn(int id, double x, float f, long double l, int sgn) { printf("%d:s %d\n", id, sgn); }
'''
PF = {'float': 'pf', 'double': 'pd', 'long double': 'pl'}


def rnd(fr, t):
    """fr rounded to nearest even in t, None when it overflows"""
    p, emin, emax = FT[t]
    if fr == 0:
        return fr
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fr(2) ** e > a:
        e -= 1
    q = max(e - p + 1, emin)
    u = Fr(2) ** q
    n = a / u
    k = n.numerator // n.denominator
    r = n - k
    if r > Fr(1, 2) or r == Fr(1, 2) and k & 1:
        k += 1
    v = k * u
    if v >= Fr(2) ** emax:
        return None
    return v if fr > 0 else -v


def hexlit(fr, t, rng=None, neg0=False):
    """exact hexadecimal literal"""
    if fr == 0:
        return ('-' if neg0 else '') + '0.0' + SUF[t]
    a = abs(fr)
    n, d = a.numerator, a.denominator
    e = -(d.bit_length() - 1)
    while n & 1 == 0 and n > 1:
        n >>= 1
        e += 1
    k = 0
    if rng is not None:
        k = rng.randrange(0, n.bit_length() + 3)
    s = '%x' % n
    if k:      # put a point inside
        digs = rng.randrange(0, len(s) + 1)
        sh = e + 4 * digs
        ip, fp = s[:len(s) - digs], s[len(s) - digs:]
        s2 = '0x%s.%sp%d' % (ip, fp, sh) if (ip or fp) else None
        out = s2 or '0x%sp%d' % (s, e)
    else:
        out = '0x%sp%d' % (s, e)
    return ('-' if fr < 0 else '') + out + SUF[t]


def value(rng, t):
    """(exact value or 'inf','-inf','nan','-0', expression text)"""
    p, emin, emax = FT[t]
    k = rng.random()
    if k < .04: return 'inf', INF[t]
    if k < .07: return '-inf', '-' + INF[t]
    if k < .11: return 'nan', NAN[t]
    if k < .15: return '-0', '-0.0' + SUF[t]
    if k < .19: return Fr(0), '0.0' + SUF[t]
    v = finite(rng, t)
    return v, hexlit(v, t, rng)


def finite(rng, t):
    p, emin, emax = FT[t]
    k = rng.randrange(12)
    m = rng.getrandbits(p - 1) | 1 << (p - 1)
    if k == 0: v = Fr(rng.randrange(0, 20))
    elif k == 1: v = Fr(2) ** emin * rng.choice([1, 2, 3, rng.getrandbits(p - 1) or 1])        # subnormal
    elif k == 2: v = Fr(2) ** (emin + p - 1) * rng.choice([1, 1 + Fr(1, 2 ** (p - 1))])      # least normal
    elif k == 3: v = Fr((1 << p) - 1) * Fr(2) ** (emax - p)                                  # greatest
    elif k == 4: v = Fr(2) ** rng.choice([7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64, -1, -2])
    elif k == 5:
        b = rng.choice([8, 16, 24, 31, 32, 53, 63, 64])
        v = rnd(Fr(2) ** b + rng.choice([-1, 1, -2, 2, Fr(1, 2), -Fr(1, 2)]), t)
    elif k == 6: v = 1 + rng.choice([-1, 1, 2]) * Fr(1, 2 ** (p - 1)) / rng.choice([1, 2])
    elif k == 7: v = Fr(m) * Fr(2) ** rng.randrange(emin, emax - p + 1)
    elif k == 8: v = Fr(rng.randrange(1, 1000), 1 << rng.randrange(0, 12))
    else: v = Fr(m) * Fr(2) ** (rng.randrange(-8, 8) - p)
    v = rnd(v, t)
    if v is None: v = Fr(1)
    return -v if rng.random() < .4 else v


def fnum(v):
    return v if isinstance(v, Fr) else (Fr(0) if v == '-0' else None)


def trunc(v):
    return int(v) if v >= 0 else -int(-v)


def intval(rng, t):
    n, s = IT[t]
    if t == '_Bool': return rng.randrange(2)
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
    k = rng.randrange(7)
    if k == 0: v = rng.choice([lo, hi, hi - 1, lo + 1, 0, 1])
    elif k > 4 and n > 25:       # at or just beside the halfway point of a narrower format
        q = rng.choice([24, 24, 53]) if n > 54 else 24
        L = rng.randrange(q + 2, n + 1) if rng.random() < .5 else n - s
        v = ((1 << q - 1 | rng.getrandbits(q - 1)) << L - q) + (1 << L - q - 1) + rng.choice([-1, 0, 1])
    elif k == 1: v = (1 << rng.randrange(n)) + rng.choice([-1, 0, 1])
    elif k == 2: v = rng.getrandbits(rng.randrange(1, n + 1))
    elif k == 3: v = (rng.getrandbits(24) << max(0, n - 25)) + rng.choice([0, 1, -1, 1 << max(0, n - 26)])
    else: v = (rng.getrandbits(53) << 10) + rng.choice([0, 1, -1, 1 << 9, (1 << 10) - 1, 511, 513])
    if s and rng.random() < .5: v = -v
    return max(lo, min(hi, v)) if lo <= v <= hi or True else v


def ilit(v, t):
    n, s = IT[t]
    if v == -(1 << 63): return '(-9223372036854775807LL - 1)'
    if n == 64: return '(%s)%d%s' % (t, v, 'LL' if s else 'ULL')
    return '(%s)%d' % (t, v)


class Prog:
    def __init__(self, rng):
        self.r, self.top, self.body, self.id = rng, [], [], 0
        self.nf = 0

    def out(self, fn, e):
        self.id += 1
        self.body.append('%s(%d, %s);' % (fn, self.id, e))

    def var(self, ty, init):
        """a variable the compilers cannot see through"""
        self.nf += 1
        k = self.r.randrange(4)
        n = 'v%d' % self.nf
        if k == 0: self.top.append('volatile %s %s = %s;' % (ty, n, init))
        elif k == 1: self.top.append('static volatile %s %s = %s;' % (ty, n, init))
        elif k == 2: self.body.append('volatile %s %s = %s;' % (ty, n, init))
        else:
            self.top.append('static struct { char c; volatile %s m[2]; } s%s = { 1, { 3, %s } };' % (ty, n, init))
            n = 's%s.m[1]' % n
        return n

    def text(self):
        # spread over several functions
        fs, i = [], 0
        decl = [l for l in self.body]
        return PRELUDE + '\n'.join(self.top) + '\nint main(void) {\n' + '\n'.join(decl) + '\nreturn 0; }\n'


def usual(t1, t2):
    o = ['float', 'double', 'long double']
    f = [t for t in (t1, t2) if t in o]
    return max(f, key=o.index)


CMP = ['<', '>', '<=', '>=', '==', '!=']


def arith(rng, n=60):
    p = Prog(rng)
    for _ in range(n):
        t1 = rng.choice(list(FT))
        t2 = rng.choice(list(FT)) if rng.random() < .4 else t1
        if rng.random() < .15: t2 = rng.choice(list(IT))
        v1, e1 = value(rng, t1)
        if t2 in FT:
            v2, e2 = value(rng, t2)
            if rng.random() < .2 and isinstance(v1, Fr) and v1:      # close operands
                w = rnd(v1 * (1 + rng.choice([-1, 0, 1]) * Fr(1, 2 ** (FT[t2][0] - 1))), t2)
                if w is not None: v2, e2 = w, hexlit(w, t2, rng)
        else:
            v2 = Fr(intval(rng, t2))
            e2 = ilit(int(v2), t2)
        if rng.random() < .5: t1, t2, v1, v2, e1, e2 = t2, t1, v2, v1, e2, e1
        rt = usual(t1, t2)
        a, b = p.var(t1, e1), p.var(t2, e2)
        la, lb = '(%s)' % e1, '(%s)' % e2
        op = rng.choice(['+', '-', '*', '/'])
        for x, y in ((a, b), (la, lb), (a, lb), (la, b)):
            if rng.random() < .75:
                p.out(PF[rt], '%s %s %s' % (x, op, y))
        if rng.random() < .5:
            c = rng.choice(CMP)
            k = rng.randrange(7)
            x, y = rng.choice([(a, b), (a, b), (la, lb), (a, lb), (la, b)])
            if k == 0: p.out('pi', '%s %s %s' % (x, c, y))
            elif k == 1: p.out('pi', '!(%s %s %s)' % (x, c, y))
            elif k == 2: p.out('pi', '%s %s %s ? 11 : 22' % (x, c, y))
            elif k == 3: p.body.append('if (%s %s %s) pi(%d, 1); else pi(%d, 0);' % (x, c, y, 90000 + p.id, 90000 + p.id))
            elif k == 4: p.out('pi', '(%s %s %s) %s (%s %s %s)' % (x, c, y, rng.choice(['&&', '||']), y, rng.choice(CMP), x))
            elif k == 5: p.out('pi', '(%s %s %s) + 2 * (%s %s %s)' % (x, c, y, x, rng.choice(CMP), y))
            else: p.body.append('{ int n = 0; while (%s %s %s) { if (++n > 2) break; } pi(%d, n); }' % (x, c, y, 80000 + p.id))
        if rng.random() < .35 and t1 in FT:
            k = rng.randrange(9)
            x = rng.choice([a, la])
            if k == 0: p.out('pi', '!%s' % x)
            elif k == 1: p.out('pi', '%s ? 5 : 6' % x)
            elif k == 2: p.out('pi', '%s && %s' % (x, b))
            elif k == 3: p.out('pi', '%s || %s' % (x, b))
            elif k == 4 and not (v1 == 'nan'): p.out(PF[t1], '-%s' % x)
            elif k == 5: p.out('pi', '(_Bool)%s' % x)
            elif k == 6: p.body.append('if (%s) pi(%d, 1);' % (x, 70000 + p.id))
            elif k == 7: p.out(PF[rt], '1 ? %s : %s' % (x, b))
            else: p.out(PF[t1], '+%s' % x)
        if rng.random() < .3 and t1 in FT:
            p.body.append('{ %s z = %s; z %s= %s; %s(%d, z); }' % (t1, e1, op, rng.choice([b, lb]), PF[t1], 60000 + p.id))
        if rng.random() < .2 and t1 in FT:
            u = rng.choice(['z++', 'z--', '++z', '--z'])
            p.body.append('{ %s z = %s; %s(%d, %s); %s(%d, z); }' % (t1, e1, PF[t1], 50000 + p.id, u, PF[t1], 50000 + p.id))
        if rng.random() < .25:
            p.nf += 1
            p.top.append('static %s k%d = %s %s %s;' % (rt, p.nf, la, op if not (op == '/' and fnum(v2) == 0) else '+', lb))
            p.out(PF[rt], 'k%d' % p.nf)
            p.top.append('static int c%d = %s %s %s;' % (p.nf, la, rng.choice(CMP), lb))
            p.out('pi', 'c%d' % p.nf)
    return p.text()


def conv(rng, n=80):
    p = Prog(rng)
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:      # integer to floating
            t, f = rng.choice(list(IT)), rng.choice(list(FT))
            v = intval(rng, t)
            a = p.var(t, ilit(v, t))
            p.out(PF[f], '(%s)%s' % (f, a))
            p.out(PF[f], '(%s)(%s)' % (f, ilit(v, t)))
            p.nf += 1
            if rng.random() < .5:
                p.top.append('static %s k%d = %s;' % (f, p.nf, ilit(v, t)))
                p.out(PF[f], 'k%d' % p.nf)
            else:
                p.body.append('{ %s z; z = %s; %s(%d, z); }' % (f, a, PF[f], 60000 + p.id))
        elif k == 1:    # floating to floating
            t, f = rng.choice(list(FT)), rng.choice(list(FT))
            v, e = value(rng, t)
            if isinstance(v, Fr) and rng.random() < .5:    # near the halfway point of the target
                w = rnd(v, f)
                if w:
                    p2 = FT[f][0]
                    u = abs(w) * Fr(1, 2 ** (p2 + 1))
                    w2 = rnd(w + u * (1 + rng.choice([0, 0, Fr(1, 2 ** 20), -Fr(1, 2 ** 20), Fr(1, 2 ** 30)])), t)
                    if w2 is not None: v, e = w2, hexlit(w2, t, rng)
            a = p.var(t, e)
            p.out(PF[f], '(%s)%s' % (f, a))
            p.out(PF[f], '(%s)(%s)' % (f, e))
            if rng.random() < .3: p.out(PF[t], '(%s)(%s)%s' % (t, f, a))
            if rng.random() < .4:
                p.nf += 1
                p.top.append('static %s k%d = %s;' % (f, p.nf, e))
                p.out(PF[f], 'k%d' % p.nf)
        else:           # floating to integer, in range
            t, f = rng.choice(list(IT)), rng.choice(list(FT))
            nb, s = IT[t]
            lo, hi = (-(1 << nb - 1), (1 << nb - 1) - 1) if s else (0, (1 << nb) - 1)
            if t == '_Bool':
                v, e = value(rng, f)
            else:
                v = Fr(intval(rng, t)) + rng.choice([0, 0, Fr(1, 2), -Fr(1, 2), Fr(3, 4), Fr(1, 1 << 20), -Fr(1, 1 << 20)])
                if rng.random() < .2: v = finite(rng, f)
                v = rnd(v, f)
                if v is None or not lo <= trunc(v) <= hi: continue
                if -1 < v < 0 and not s: continue
                e = hexlit(v, f, rng)
            a = p.var(f, e)
            p.out('pi', '(%s)%s' % (t, a))
            p.out('pi', '(%s)(%s)' % (t, e))
            p.body.append('{ %s z = %s; pi(%d, z); }' % (t, rng.choice([a, e]), 60000 + p.id))
            if rng.random() < .3 and t != '_Bool':
                p.nf += 1
                p.top.append('static %s k%d = (%s)(%s);' % (t, p.nf, t, e))
                p.out('pi', 'k%d' % p.nf)
    return p.text()


def literal(rng):
    t = rng.choice(list(FT))
    p, emin, emax = FT[t]
    k = rng.randrange(8)
    suf = {'float': rng.choice('fF'), 'double': '', 'long double': rng.choice('lL')}[t]
    if k == 0:
        s = '%d.%d' % (rng.randrange(1000), rng.randrange(10 ** rng.randrange(1, 18)))
    elif k == 1:
        s = '%s%s%s%de%s%d' % (rng.choice(['', '0', '000']), rng.randrange(10), rng.choice(['.', '.0', '.00']), rng.getrandbits(60), rng.choice(['', '+', '-']), rng.randrange(0, 30))
    elif k == 2:
        s = rng.choice(['.5', '5.', '0.', '.0', '1e0', '1E+5', '00012.5', '0e10', '1.e-3', '.1e1', '09.5', '0008e2', '3.4028234663852886e38', '1.17549435e-38', '1.4e-45', '1e-46', '7e-46',
                        '4.9e-324', '2.4e-324', '2.5e-324', '1.7976931348623157e308', '2.2250738585072011e-308', '2.2250738585072014e-308', '9007199254740993', '9007199254740993.0', '16777217.0', '0.1', '0.3', '1e23', '8.5', '3.1415926535897932384626433832795028841971693993751'])
        if '.' not in s and 'e' not in s.lower(): s += '.'
        if t == 'float' and rnd_dec(s, t) is None: t, suf = 'double', ''
    elif k == 3:     # exact halfway between two values, or just off it
        v = abs(finite(rng, t))
        if v == 0 or v > Fr(2) ** 200 or v < Fr(1, 2 ** 200): v = Fr(rng.getrandbits(p), 1 << rng.randrange(p + 20)) + 1
        v = rnd(v, t)
        e = v.numerator.bit_length() - v.denominator.bit_length()
        half = Fr(2) ** (e - p)
        w = v + half
        s = dec(w)
        if rng.random() < .6: s += '0' * rng.randrange(0, 30) + rng.choice(['1', '0'])
    elif k == 4:     # long digits
        s = ''.join(rng.choice('0123456789') for _ in range(rng.randrange(20, 300))) + '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randrange(0, 200)))
        if t == 'float': s = s[-20:] + ('' if '.' in s[-20:] else '.')
    elif k == 5:
        n = rng.randrange(1, 30)
        h = ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(n))
        d = rng.randrange(0, n + 1)
        s = '%s%s.%sp%s%d' % (rng.choice(['0x', '0X']), h[:d] or ('0' if d == n else ''), h[d:] or ('0' if not h[:d] else ''), rng.choice(['', '+', '-']), rng.randrange(0, 40))
        if '0x.p' in s.lower(): s = '0x1.p3'
    elif k == 6:
        s = '0x%xp%d' % (rng.getrandbits(rng.randrange(1, 100)) , rng.randrange(-60, 20))
    else:
        s = '0x1.%xp%d' % (rng.getrandbits(p + 8) | 1 << (p + 6), rng.randrange(max(emin, -200), 60))
    return t, s + suf


def rnd_dec(s, t):
    try:
        return rnd(Fr(s if not s.endswith('.') else s + '0'), t)
    except (ValueError, ZeroDivisionError):
        return Fr(0)


def dec(fr):
    d = fr.denominator
    k = d.bit_length() - 1
    n = fr.numerator * 5 ** k
    s = str(n).rjust(k + 1, '0')
    return s[:-k] + '.' + s[-k:] if k else s + '.0'


def literals(rng, n=120):
    p = Prog(rng)
    for _ in range(n):
        t, s = literal(rng)
        k = rng.randrange(4)
        sg = rng.choice(['', '', '-'])
        if k == 0: p.out(PF[t], sg + s)
        elif k == 1:
            p.nf += 1
            p.top.append('%s k%d = %s%s;' % (t, p.nf, sg, s))
            p.out(PF[t], 'k%d' % p.nf)
        elif k == 2: p.out(PF['long double'], sg + s)
        else: p.out('pi', 'sizeof(%s)' % s)
        if k == 2 and rng.random() < .5: p.out(PF['float'], '(float)' + s)
    return p.text()


def mixed(rng, n=25):
    """expressions of several operators, through calls, arrays and members"""
    p = Prog(rng)
    p.top.append('static float ff(float a, double b, long double c) { return a * b - c; }\nstatic double fd(double a, float b, int c) { return a / b + c; }\n'
                 'static long double fl(long double a, long double b, float c) { return a * b + c; }\n'
                 'struct S { char c; float f; double d; long double l; int i; };\n')
    for _ in range(n):
        def leaf():
            k = rng.randrange(6)
            if k < 3:
                t = rng.choice(list(FT))
                v = rnd(Fr(rng.randrange(-4000, 4000), 1 << rng.randrange(0, 9)) + Fr(1, rng.randrange(3, 99)), t)
                return p.var(t, hexlit(v, t, rng)) if rng.random() < .7 else '(%s)' % hexlit(v, t, rng)
            if k == 3: return p.var('int', str(rng.randrange(1, 99)))
            if k == 4: return p.var('unsigned long long', '%dULL' % rng.getrandbits(rng.randrange(1, 64)))
            return '(%d)' % rng.randrange(1, 50)

        def ex(d):
            if d == 0 or rng.random() < .12: return leaf()
            k = rng.randrange(10)
            if k < 6: return '(%s %s %s)' % (ex(d - 1), rng.choice(['+', '-', '*', '+', '-', '/']), ex(d - 1))
            if k == 6: return '(%s)%s' % (rng.choice(list(FT)), ex(d - 1))
            if k == 7: return '(%s %s %s ? %s : %s)' % (leaf(), rng.choice(CMP), leaf(), ex(d - 1), ex(d - 1))
            if k == 8: return '%s(%s, %s, (%s %s %s))' % (rng.choice(['ff', 'fl']), ex(d - 1), leaf(), leaf(), rng.choice('+-*'), leaf())
            return '- ' + ex(d - 1)
        e = ex(rng.randrange(2, 6))
        t = rng.choice(list(FT))
        k = rng.randrange(4)
        if k == 0: p.out(PF[t], e)
        elif k == 1: p.body.append('{ struct S s = {0}, *q = &s; q->%s = %s; s.%s %s= %s; pf(1, s.f); pd(%d, s.d); pl(2, s.l); }' % (t[0], e, t[0], rng.choice('+-*'), leaf(), 30000 + p.id))
        elif k == 2:
            p.body.append('{ %s a[4] = {1, 2, 3}; volatile int i = %d; a[i] = %s; a[i ^ 1] -= a[i]; for (int j = 0; j < 4; j++) %s(%d, a[j]); }' % (t, rng.randrange(4), e, PF[t], 20000 + p.id))
        else:
            p.body.append('{ %s s = 0; for (int j = 0; j < 4; j++) s = s * 0.5f + (%s); %s(%d, s); }' % (t, e, PF[t], 20000 + p.id))
    return p.text()
