"""Operator x type x operand-kind matrices with operands for which every
operation is defined (decided by a model of C integer arithmetic)."""
from .cgen import INTS, SIZE, SIGNED, UNS, rng_of, promote, usual, wrap, lit, boundary, fits

BIN = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
ASG = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^']


def defined(op, a, ta, b, tb):
    """value of a op b, or None when undefined"""
    if op in ('<<', '>>'):
        t = promote(ta)
        w = SIZE[t] * 8
        if not 0 <= b < w: return None
        if op == '>>': return a >> b
        if SIGNED[t]:
            if a < 0 or (a << b) > rng_of(t)[1]: return None
            return a << b
        return wrap(a << b, t)
    if op == '&&': return int(a != 0 and b != 0)
    if op == '||': return int(a != 0 or b != 0)
    t = usual(ta, tb)
    x, y = wrap(a, t), wrap(b, t)
    if op in ('/', '%'):
        if y == 0: return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        v = q if op == '/' else x - q * y
        if not fits(q, q, t): return None
        return v
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
    v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
    if SIGNED[t]: return v if fits(v, v, t) else None
    return wrap(v, t)


def values(rng, t, n):
    lo, hi = rng_of(t)
    base = [v for v in (0, 1, 2, 3, 7, -1, -2, lo, hi, hi - 1, lo + 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, -4294967296, hi // 2 + 1, 63, 31) if lo <= v <= hi]
    base = sorted(set(base))
    if t == '_Bool': return [0, 1]
    v = rng.sample(base, min(n, len(base)))
    while len(v) < n: v.append(boundary(rng, t))
    return v


def cl(rng, v, t):
    """constant expression of value v and type t"""
    s = lit(rng, v, promote(t))
    return s if t in ('int', 'unsigned') or promote(t) == t else '(%s)%s' % (t, s)


class M:
    def __init__(self, rng):
        self.r, self.id, self.top, self.body, self.nf = rng, 0, [], [], 0
        self.n = 0

    def p(self, e, what=''):
        self.id += 1
        return 'P(%d, %s);' % (self.id, e)

    def fn(self):
        self.nf += 1
        return 'F%d' % self.nf

    def text(self):
        head = '''#include <stdio.h>
static unsigned long long h_;
static void P(int id, unsigned long long v) { h_ = (h_ ^ v) * 1099511628211ull + id; printf("%d:%llx\\n", id, v); }
#define H(v) (h_ = (h_ ^ (unsigned long long)(v)) * 1099511628211ull + 1)
#define T(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, default: 99)
'''
        # split main in pieces
        parts, calls = [], []
        for i in range(0, len(self.body), 120):
            n = 'part%d' % i
            parts.append('static void %s(void)\n{\n  %s\n}\n' % (n, '\n  '.join(self.body[i:i + 120])))
            calls.append(n + '();')
        return head + '\n'.join(self.top) + '\n' + ''.join(parts) + 'int main(void) { ' + ' '.join(calls) + ' return (int)(h_ & 63); }\n'


def pair_program(rng, t1, t2):
    m = M(rng)
    A, B = values(rng, t1, 10), values(rng, t2, 10)
    for op in BIN:
        ps = [(a, b) for a in A for b in B if defined(op, a, t1, b, t2) is not None]
        if op in ('<<', '>>'):
            w = SIZE[promote(t1)] * 8
            bs = [b for b in (0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63) if b < w and fits(b, b, t2)]
            ps = [(a, b) for a in A for b in bs if defined(op, a, t1, b, t2) is not None]
        if not ps: continue
        if len(ps) > 40: ps = rng.sample(ps, 40)
        m.n += len(ps)
        f = m.fn()
        rt = 'int' if op in BIN[10:] else promote(t1) if op in ('<<', '>>') else usual(t1, t2)
        m.top.append('static %s %s(%s a, %s b) { return a %s b; }' % (rt, f, t1, t2, op))
        m.top.append('static const %s %sa[] = { %s }; static const %s %sb[] = { %s };' % (t1, f, ', '.join(cl(rng, a, t1) for a, b in ps), t2, f, ', '.join(cl(rng, b, t2) for a, b in ps)))
        n = len(ps)
        m.body.append('h_ = 0; for (int i = 0; i < %d; i++) H(%s(%sa[i], %sb[i])); %s' % (n, f, f, f, m.p('h_')))
        # the operands as locals, globals, with the result converted, types of the result
        m.body.append('h_ = 0; for (int i = 0; i < %d; i++) { %s a = %sa[i]; %s b = %sb[i]; H(a %s b); H(T(a %s b)); } %s' % (n, t1, f, t2, f, op, op, m.p('h_')))
        if op in BIN[10:]:
            m.body.append('h_ = 0; for (int i = 0; i < %d; i++) { %s a = %sa[i]; %s b = %sb[i]; if (a %s b) H(1); else H(2); if (!(a %s b)) H(3); H((a %s b) ? i : -i); while (a %s b) { H(4); break; } H((a %s b) && i); H((a %s b) || i); H(!(a %s b) && !!(i & 1)); H(-(a %s b)); H((a %s b) + (b %s a)); } %s' %
                          (n, t1, f, t2, f, op, op, op, op, op, op, op, op, op, op, m.p('h_')))
        if op in ASG:
            cps = [(a, b) for a, b in ps]
            m.body.append('h_ = 0; for (int i = 0; i < %d; i++) { %s a = %sa[i], *q = &a; %s b = %sb[i]; H(a %s= b); H(a); a = %sa[i]; H((*q) %s= %sb[i]); H(a); struct { char c; %s m[2]; } s = { 1, { 2, %sa[i] } }; s.m[1] %s= b; H(s.m[1]); H(s.m[0]); } %s' %
                          (n, t1, f, t2, f, op, f, op, f, t1, f, op, m.p('h_')))
        # constants on one or both sides
        for a, b in rng.sample(ps, min(4, n)):
            ca, cb = cl(rng, a, t1), cl(rng, b, t2)
            va, vb = 'x%d' % m.id, 'y%d' % m.id
            st = rng.choice(['volatile ', '', 'static '])
            decl = '%s%s %s = %s; %s%s %s = %s;' % (st, t1, va, ca, st, t2, vb, cb)
            m.body.append('{ %s %s %s %s %s }' % (decl, m.p('%s %s %s' % (va, op, cb)), m.p('%s %s %s' % (ca, op, vb)), m.p('%s %s %s' % (ca, op, cb)), m.p('T(%s %s %s)' % (va, op, cb))))
            if op in BIN[10:]:
                m.body.append('{ %s if (%s %s %s) %s else %s if (%s %s %s) %s if (%s %s %s) %s }' % (decl, va, op, cb, m.p('1'), m.p('2'), ca, op, vb, m.p('3'), ca, op, cb, m.p('4')))
            if op in ASG and op not in ():
                m.body.append('{ %s %s %s %s }' % (decl.replace('static ', ''), m.p('%s %s= %s' % (va, op, cb)), m.p(va), 'struct { unsigned k : 3; %s m; } z = { 1, %s }; z.m %s= %s; %s %s' % (t1, ca, op, cb, m.p('z.m'), m.p('z.k'))))
            g = 'g%d' % m.id
            m.top.append('static %s %s = %s %s %s;' % (rng.choice(INTS), g, ca, op, cb))
            m.body.append(m.p(g))
            v = defined(op, a, t1, b, t2)
            if fits(v, v, 'int') and fits(v, v, rt):
                m.body.append('{ enum { k_ = (int)(%s %s %s) }; %s _Static_assert((%s %s %s) == %s, "v"); switch (%s) { case (%s %s %s): %s break; default: %s } }' % (
                    ca, op, cb, m.p('k_'), ca, op, cb, cl(rng, v, rt), vb_sw(v), ca, op, cb, m.p('5'), m.p('6')))
            m.n += 4
    return m.text(), m


def vb_sw(v):
    return '(long long)%d' % v


def unary_program(rng, t):
    m = M(rng)
    V = values(rng, t, 14)
    m.top.append('static const %s V[] = { %s };' % (t, ', '.join(cl(rng, v, t) for v in V)))
    lo, hi = rng_of(t)
    pt = promote(t)
    for op in '+-~!':
        vs = [v for v in V if op != '-' or not SIGNED[pt] or v != rng_of(pt)[0]]
        m.body.append('{ static const %s W[] = { %s }; h_ = 0; for (int i = 0; i < %d; i++) { %s a = W[i]; H(%sa); H(T(%sa)); H(%s(%sa)); if (%sa) H(3); H((%sa) ? i : ~i); H(!!(%sa)); } %s }' % (
            t, ', '.join(cl(rng, v, t) for v in vs), len(vs), t, op, op, '!' if op in '-' else '+', op, op, op, op, m.p('h_')))
        for v in rng.sample(vs, min(4, len(vs))):
            c = cl(rng, v, t)
            m.top.append('static %s u%d = %s(%s);' % (rng.choice(INTS), m.id, op, c))
            m.body.append(m.p('u%d' % m.id) + m.p('%s(%s)' % (op, c)))
    # casts and implicit conversions
    for t2 in INTS:
        m.body.append('h_ = 0; for (int i = 0; i < %d; i++) { %s a = V[i]; H((%s)a); H(T((%s)a)); %s b = a; H(b); b = V[i]; H(b); H((%s)(%s)a); struct { %s m; %s z; } s = { a, a }; H(s.m); H(s.z); } %s' % (
            len(V), t, t2, t2, t2, t, t2, t2, t, m.p('h_')))
        f = m.fn()
        m.top.append('static %s %s(%s x) { return x; } static %s %sp(%s x, char pad, %s y) { return x + (pad & 0) + (y & 0); }' % (t2, f, t, 'unsigned long long', f, t2, t2))
        m.body.append('h_ = 0; for (int i = 0; i < %d; i++) { H(%s(V[i])); H(%sp(V[i], 1, V[i])); } %s' % (len(V), f, f, m.p('h_')))
        for v in rng.sample(V, min(3, len(V))):
            c = cl(rng, v, t)
            m.top.append('static %s k%d = %s;' % (t2, m.id, c))
            m.body.append(m.p('k%d' % m.id) + m.p('(%s)%s' % (t2, c)) + m.p('(%s)(%s)%s' % (rng.choice(INTS), t2, c)))
        m.n += len(V)
    # increments on every kind of lvalue
    vs = [v for v in V if lo < v < hi or not SIGNED[t] or t not in ('int', 'long', 'long long')]
    if vs:
        m.top.append('static const %s I[] = { %s }; static %s gi; static struct { char c; %s m; } gs, *gp = &gs; static %s ga[3]; static struct { int a : 3; %s b : %d; int c : 4; } gb;' % (t, ', '.join(cl(rng, v, t) for v in vs), t, t, t, t, 1 if t == '_Bool' else SIZE[t] * 8 - rng.randrange(0, 4)))
        for lv in ['x', 'gi', 'gs.m', 'gp->m', 'ga[1]', '*(ga + 2)', '*q', 'a2[i & 1]', 'vx']:
            for e in ['%s++', '++%s', '%s--', '--%s']:
                ex = e % ('(%s)' % lv if lv[0] == '*' else lv)
                m.body.append('{ h_ = 0; for (int i = 0; i < %d; i++) { %s x = 0, *q = &x, a2[2]; volatile %s vx; %s = I[i]; H(%s); H(%s); %s = I[i]; if (%s) H(7); H(%s); %s = I[i]; %s; H(%s); } %s }' % (
                    len(vs), t, t, lv, ex, lv, lv, ex, lv, lv, ex, lv, m.p('h_')))
        m.n += len(vs) * 36
    # pointers to the type: difference, scaling, increments
    m.body.append('{ %s arr[10], *p = arr, *e = arr + 10; h_ = 0; for (int i = 0; i < 10; i++) arr[i] = (%s)(i * 3); while (p < e) H(*p++); while (p > arr) H(*--p); p += 7; H(p - arr); H(e - p); p -= 3; H(*p); H(p[2]); H(p[-1]); H(2[p]); H((char *)(p + 1) - (char *)p); H(&p[3] - &arr[1]); H(p == &arr[4]); H(p != arr); H(!p); H(p && e); long k = -2; H(p[k]); unsigned char uc = 3; H(*(p + uc)); H(*(uc + p)); H(p - uc == arr + 1); short sk = -1; p += sk; H(p - arr); %s **pp = &p; ++*pp; H(**pp); H(*(*pp)++); H((*pp)[0]); H(p <= e); H(e > p ? *p : 0); %s }' % (t, t, t, m.p('h_')))
    m.body.append('{ %s arr[3][4], (*r)[4] = arr; h_ = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) arr[i][j] = (%s)(i * 4 + j); H(r[1][2]); r++; H((*r)[3]); H(*(*r + 1)); H(r[-1][0]); H(sizeof arr); H(sizeof *r); H(sizeof arr[0]); H(&arr[2][0] - &arr[0][0]); H(r - arr); %s *f = &arr[0][0]; H(f[0]); H(*(arr[2] + 3)); H((*(arr + 1))[1]); %s }' % (t, t, t, m.p('h_')))
    # switch on the type
    cs = sorted({wrap(v, t) for v in V})
    if len(cs) > 1:
        m.body.append('{ h_ = 0; for (int i = 0; i < %d; i++) { %s a = V[i]; switch (a) { %s default: H(77); } } %s }' % (len(V), t, ' '.join('case %s: H(%d); break;' % (cl(rng, c, t) if c != rng_of('long long')[0] else lit(rng, c, 'long long'), k) for k, c in enumerate(cs)), m.p('h_')))
    # case values of other types than the switch value's: converted to its promoted type
    p = promote(t)
    pool = {}
    for _ in range(rng.choice([4, 10, 24])):
        t2 = rng.choice(['int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long'])
        v2 = wrap(rng.choice(V) + rng.choice([0, 0, 0, 1, -1, 1 << 32, -(1 << 32)]), t2)
        pool.setdefault(wrap(v2, p), (v2, t2))
    es = list(pool.values())
    rng.shuffle(es)
    sel = rng.choice(['a', 'a + 0', '(0, a)', '*&a', '1 ? a : a'])
    m.body.append('{ h_ = 0; for (int i = 0; i < %d; i++) { %s a = V[i]; switch (%s) { %s default: H(77); } } %s }' % (len(V), t, sel, ' '.join('case (%s)%s: H(%d);%s' % (t2, lit(rng, v2, t2), k, rng.choice([' break;', ' break;', ''])) for k, (v2, t2) in enumerate(es)), m.p('h_')))
    return m.text(), m
