"""Macro sets and invocations, #if expressions, include trees, and a preprocessing-token lexer."""
import re
PUNCT = ['%:%:', '...', '<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '*=', '/=', '%=', '+=', '-=', '&=', '^=', '|=', '##',
         '[', ']', '(', ')', '{', '}', '.', '&', '*', '+', '-', '~', '!', '/', '%', '<', '>', '^', '|', '?', ':', ';', '=', ',', '#']
TOK = re.compile(r'''\s+|(?P<s>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")|(?P<c>[uUL]?'(?:\\.|[^'\\\n])*')|(?P<n>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*)|(?P<i>[A-Za-z_$][A-Za-z0-9_$]*)|(?P<p>%s)|(?P<o>.)''' % '|'.join(map(re.escape, PUNCT)), re.S)


def lex(s):
    return [m.group(0) for m in TOK.finditer(s) if not m.group(0).isspace()]


IDS = ['a', 'b', 'x', 'yy', 'foo', '_t', 'while', 'int']
NUMS = ['0', '1', '12', '0x1F', '1.5e+3', '.5', '3u', '0b', '1e', '7x']
PUN = ['+', '-', '*', '/', '<', '>', '=', '&', '|', '!', ';', '[', ']', '{', '}', '->', '++', '<<', '.', '~', '?', ':', '%']
STRS = ['"s"', '"a\\n\\"b"', "'c'", "'\\''", '"\\\\"', 'L"w"', '"#"', '"/*"', '"//"', '""']


class M:
    def __init__(self, name, params, va):
        self.name, self.params, self.va = name, params, va     # params None: object-like


def ws(rng):
    return rng.choice([' ', ' ', ' ', '  ', '\t', ' /* c */ ', ' /**/', ' /* , ( */ '])


def macros(rng, n=14):
    ms, lines = [], []
    for i in range(n):
        obj = rng.random() < .35
        name = '%s%d' % (rng.choice(['M', 'f', 'Q_']), i)
        if obj: ms.append(M(name, None, 0))
        else:
            k = rng.choice([0, 1, 1, 2, 2, 3, 4])
            va = rng.choice([0, 0, 0, 1, 2])
            ms.append(M(name, ['p%d' % j for j in range(k)], va))
    for m in ms:
        lines.append(define(rng, m, ms))
    return ms, lines


def simple(rng):
    r = rng.random()
    if r < .4: return rng.choice(IDS)
    if r < .6: return rng.choice(NUMS[:7])
    if r < .85: return rng.choice(PUN)
    return rng.choice(STRS)


def define(rng, m, ms):
    body = []
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8])
    pars = list(m.params or [])
    if m.va == 1: pars.append('__VA_ARGS__')
    elif m.va == 2: pars.append('rest')
    k = 0
    while k < n:
        k += 1
        r = rng.random()
        if pars and r < .32: body.append(rng.choice(pars))
        elif pars and r < .42: body.append('#' + rng.choice(['', ' ']) + rng.choice(pars))
        elif pars and r < .57:
            # a paste; what is not valid is thrown out when the reference says so
            a = rng.choice(pars + ['a', 'x', '1', ''])
            b = rng.choice(pars + ['b', '2', '_'])
            if a == '': body.append(b)
            elif a not in pars and b not in pars and not a.isalpha() and b == '_': body.append(a)
            else: body.append('%s%s##%s%s' % (a, rng.choice(['', ' ']), rng.choice(['', ' ']), b))
            if rng.random() < .25: body[-1] += ' ## ' + rng.choice(pars + ['c', '3'])
        elif r < .72:
            o = rng.choice(ms)
            if o.params is None or rng.random() < .2: body.append(o.name)
            else: body.append(call(rng, o, ms, pars, 1))
        elif r < .75 and m.params is not None: body.append(m.name)
        elif r < .78: body.append('(')
        elif r < .81: body.append(')')
        elif r < .84: body.append(',')
        else: body.append(simple(rng))
    if m.params is None:
        if rng.random() < .15: body += [rng.choice(['#', '# a', 'a ## b', '1 ## 2', '- ## -', '< ## < ## ='])]
        sig = ''
    else:
        ps = list(m.params)
        if m.va == 1: ps.append('...')
        elif m.va == 2: ps.append('rest...')
        sig = '(' + rng.choice(['', ' ']) + (',' + rng.choice(['', ' '])).join(ps) + rng.choice(['', ' ']) + ')'
    t = ''
    for b in body:
        t += ws(rng) + b if rng.random() < .8 or not t else b
        # keep parameters apart from what precedes them
    t = ' '.join(body) if rng.random() < .5 else ws(rng).join(body)
    if rng.random() < .15 and ' ' in t:
        i = t.index(' ')
        t = t[:i] + ' \\\n ' + t[i:]
    return '#define %s%s %s' % (m.name, sig, t)


def arg(rng, ms, pars, depth):
    r = rng.random()
    if r < .13: return ''
    if r < .3 and pars: return rng.choice(pars)
    if r < .5 and depth < 3:
        o = rng.choice(ms)
        if o.params is None or rng.random() < .15: return o.name
        return call(rng, o, ms, pars, depth + 1)
    if r < .6: return '(' + ', '.join(simple_bal(rng) for _ in range(rng.randrange(1, 4))) + ')'
    return ' '.join(simple_bal(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def simple_bal(rng):
    return simple(rng)


def call(rng, m, ms, pars, depth):
    n = len(m.params)
    as_ = [arg(rng, ms, pars, depth) for _ in range(n)]
    if m.va:
        k = rng.choice([0, 1, 1, 2, 3])
        # with named parameters the variable arguments may be left out
        as_ += [arg(rng, ms, pars, depth) for _ in range(k)]
    if rng.random() < .03: as_ = as_[:-1]
    sep = rng.choice([',', ', ', ' ,'])
    return m.name + rng.choice(['', '', '', ' ', '/**/']) + '(' + sep.join(as_) + ')'


def invocations(rng, ms, n=40):
    out = []
    for i in range(n):
        m = rng.choice(ms)
        t = m.name if m.params is None or rng.random() < .05 else call(rng, m, ms, [], 0)
        if rng.random() < .3: t += rng.choice([' ', '']) + '(' + arg(rng, ms, [], 1) + ')'
        if rng.random() < .2: t = simple_bal(rng) + ' ' + t
        if rng.random() < .2: t += ' ' + simple_bal(rng)
        out.append(t)
    return out


# ---- #if arithmetic -------------------------------------------------------
M64 = (1 << 64) - 1


def wrap(v, u):
    v &= M64
    return v if u or v < 1 << 63 else v - (1 << 64)


class Undef(Exception):
    pass


def ifexpr(rng, depth, defs):
    """(text, value, unsigned, defined?)  value None: must not be evaluated"""
    r = rng.random()
    if depth <= 0 or r < .18:
        k = rng.randrange(12)
        if k == 0: return rng.choice(['undefd', 'foo_', 'while', 'sizeof_', 'int']), 0, False
        if k == 1: return 'defined(%s)' % 'NOPE', 0, False
        if k == 2:
            n = rng.choice(list(defs) or ['NOPE'])
            return rng.choice(['defined %s', 'defined(%s)', 'defined ( %s )']) % n, int(n in defs), False
        if k in (3, 4) and defs:
            n = rng.choice(list(defs))
            return n, defs[n][0], defs[n][1]
        if k == 5:
            c, v = rng.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\377'", -1), ("'\\x41'", 65), ("'\\\\'", 92), ("'\\''", 39), ("'~'", 126), ("'\\x7f'", 127), ("L'a'", 97), ("'\"'", 34), ("'\\a'", 7), ("'\\xff'", -1)])
            return c, v, False
        v = rng.choice([0, 1, 2, 3, 7, 10, 31, 32, 63, 100, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1, rng.getrandbits(rng.randrange(1, 65))])
        f = rng.randrange(4)
        t = [str(v), hex(v), '0%o' % v if v else '0', '0X%X' % v][f]
        suf = rng.choice(['', '', 'l', 'L', 'll', 'LL', 'u', 'U', 'ul', 'LU', 'ull', 'LLU', 'uLL'])
        u = 'u' in suf.lower()
        if v >= 1 << 63 and not u:
            if f == 0: suf, u = suf + 'u' if 'l' not in suf.lower() else 'u', True
            else: u = True      # does not fit the signed type
        return t + suf, v, u
    if r < .3:
        op = rng.choice('+-~!')
        t, v, u = ifexpr(rng, depth - 1, defs)
        p = '(%s)' % t if rng.random() < .7 or t[0] in '+-' else t
        t2 = op + rng.choice(['', ' ']) + p if t[0] not in '+-' or p[0] == '(' else op + ' ' + p
        if not atomic(t) and p == t: t2 = '%s(%s)' % (op, t)
        if op == '!': return t2, int(not v), False
        x = {'+': v, '-': -v, '~': ~v}[op]
        if not u and x != wrap(x, False): raise Undef
        return t2, wrap(x, u), u
    if r < .4:
        c, cv, cu = ifexpr(rng, depth - 1, defs)
        a, av, au = ifexpr(rng, depth - 1, defs)
        b, bv, bu = ifexpr(rng, depth - 1, defs)
        u = au or bu
        return '((%s) ? (%s) : (%s))' % (c, a, b), wrap(av if cv else bv, u), u
    op = rng.choice(['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||', ','][:-1])
    a, av, au = ifexpr(rng, depth - 1, defs)
    if op in ('&&', '||') and rng.random() < .4 and bool(av) == (op == '||'):
        # the other side is not evaluated
        b = rng.choice(['1/0', '(5%0)', '(1 / (2 - 2))', '0 ? 1/0 : 1 % 0'])
        if b[0] == '0': b = '(' + b + ')'
        return '((%s) %s %s)' % (a, op, b), int(op == '||'), False
    b, bv, bu = ifexpr(rng, depth - 1, defs)
    if op in ('<<', '>>'):
        s = rng.randrange(0, 64)
        b, bv, bu = '%d' % s, s, False
        u = au
        if op == '<<':
            if not u and (av < 0 or av << bv >= 1 << 63): raise Undef
            v = wrap(av << bv, u)
        else: v = av >> bv
    elif op in ('&&', '||'):
        u = False
        v = int(bool(av) and bool(bv)) if op == '&&' else int(bool(av) or bool(bv))
    else:
        u = au or bu
        x, y = wrap(av, u), wrap(bv, u)
        if op in '/%':
            if y == 0: raise Undef
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            v = q if op == '/' else x - q * y
        elif op in ('<', '>', '<=', '>=', '==', '!='):
            v = int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
        else:
            v = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
        if op in ('<', '>', '<=', '>=', '==', '!='): u = False
        elif u: v = wrap(v, True)
        elif v != wrap(v, False): raise Undef
    sp = rng.choice([' ', ' ', ''])
    if sp == '' and (b[0] == op[-1] or b[0] in '&|=+-<>*/'): sp = ' '
    t = '%s%s%s%s%s' % (par(rng, a, op, 0), sp, op, sp, par(rng, b, op, 1))
    return t, v, u


PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}


def atomic(t):
    d = 0
    for i, c in enumerate(lex(t)):
        if c == '(': d += 1
        elif c == ')': d -= 1
        elif d == 0 and c in PREC: return False
        elif d == 0 and c in '?:': return False
    return True


def lowest(t):
    """lowest precedence of a binary operator at the top level"""
    d, lo, prev = 0, 99, None
    for c in lex(t):
        if c == '(': d += 1
        elif c == ')': d -= 1
        elif d == 0 and c in PREC and prev is not None and prev not in PREC and prev not in '(!~': lo = min(lo, PREC[c])
        prev = c
    return lo


def par(rng, t, op, right):
    lo = lowest(t)
    if lo == 99 and atomic(t): return t
    if lo > PREC[op] or (lo == PREC[op] and not right):
        if rng.random() < .6: return t
    return '(%s)' % t


# ---- GNU comma deletion, in a family of its own ---------------------------
def comma_family(rng):
    lines, inv = [], []
    for i in range(8):
        np = rng.randrange(0, 3)
        ps = ['p%d' % k for k in range(np)]
        va = rng.choice(['__VA_ARGS__', 'rest'])
        lead = ' '.join(rng.choice(ps + IDS[:5] + ['[', '+', '1']) for _ in range(rng.randrange(1, 4)))
        tail = ' '.join(rng.choice(ps + IDS[:5] + [';', ')', '(']) for _ in range(rng.randrange(0, 3)))
        tail = tail if tail.count('(') == tail.count(')') else ']'
        if rng.random() < .3: tail += ' ' + va
        lines.append('#define G%d(%s) %s ,%s##%s%s %s' % (i, ', '.join(ps + (['...'] if va != 'rest' else ['rest...'])), lead, rng.choice(['', ' ']), rng.choice(['', ' ']), va, tail))
        for _ in range(4):
            a = [rng.choice(IDS + NUMS[:4]) for _ in range(np)]
            v = [rng.choice(IDS + NUMS + STRS + ['(1, 2)', '-', 'x y']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            if np == 0 and not v: a = []
            inv.append('G%d(%s)' % (i, ', '.join(a + v)))
    return lines, inv


# ---- pastes of alphanumeric tokens: always valid, chains with placemarkers, rescans ----
def paste_family(rng):
    lines, inv = [], []
    words = ['a', 'b1', 'x_', '7', '0', 'M', 'zz']
    # names that pastes can form, and names that must not expand next to ##
    for n in ('ab1', 'aa', 'M7', 'MM', 'a7', 'M', 'zzM', 'b1a'):
        r = rng.random()
        if r < .35: lines.append('#define %s [%s %s]' % (n, rng.choice(words), rng.choice(['M', '+', 'a7', 'ab1'])))
        elif r < .5: lines.append('#define %s(x) {x-%s}' % (n, rng.choice(['x', 'aa', 'M7'])))
    for i in range(8):
        np = rng.randrange(1, 5)
        ps = ['p%d' % k for k in range(np)]
        body = []
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < .7:
                sp = rng.choice(['##', ' ## ', '## ', ' ##', ' /* */ ## '])
                body.append(sp.join(rng.choice(ps + ps + words) for _ in range(rng.randrange(2, 6))))
            elif r < .8: body.append('#' + rng.choice(ps))
            elif r < .95: body.append(rng.choice(ps))
            else: body.append(rng.choice(['(', ')', '+', '(3)']))
        lines.append('#define J%d(%s) %s' % (i, ', '.join(ps), ' '.join(body)))
        for _ in range(5):
            av = []
            for _ in range(np):
                r = rng.random()
                if r < .4: av.append(rng.choice(['', '', ' ', '/**/']))
                elif r < .8: av.append(rng.choice(words))
                elif r < .9: av.append('%s %s %s' % (rng.choice(words), rng.choice(['+', 'q', '(1)', '=']), rng.choice(words)))
                else: av.append('J%d(%s)' % (i, ','.join(rng.choice(words + ['']) for _ in range(np))))
            inv.append('J%d(%s)%s' % (i, ','.join(av), rng.choice(['', '', ' (5)', ' b1'])))
    lines += ['#define TW(x) x : x', '#define TH(x, y) x x #x y TW(x)', '#define CC(x, y) x ## y x y']
    for t in ('TW(__COUNTER__)', 'TH(__COUNTER__, __COUNTER__)', 'TW(TW(__COUNTER__))', 'CC(__COUNTER__, _q)', 'TW(J0(%s))' % ','.join(['__COUNTER__'] * 0), 'TH(TW(__COUNTER__), q)', 'TW(a __COUNTER__ b) __COUNTER__'):
        if 'J0' not in t and rng.random() < .6: inv.append(t)
    return lines, inv


# ---- conditional groups ---------------------------------------------------
def cond_program(rng, n=30):
    """(text, expected markers) of nested #if groups with a modelled value each"""
    defs = {}
    out, exp = [], []
    cnt = [0]
    for i in range(rng.randrange(2, 7)):
        v = rng.choice([0, 1, -1, 5, 2**31, 2**63 - 1, 2**64 - 1, rng.getrandbits(20)])
        u = v >= 1 << 63
        n_ = 'D%d' % i
        out.append('#define %s %s' % (n_, '(%d)' % v if v < 0 else '%d%s' % (v, 'u' if u else '')))
        defs[n_] = (v, u)

    def ex():
        for _ in range(200):
            try:
                return ifexpr(rng, rng.randrange(0, 5), defs)
            except Undef:
                continue
        return '1', 1, False

    def marker(live):
        cnt[0] += 1
        out.append('"%d "' % cnt[0])
        if live: exp.append(cnt[0])

    GARB = ["don't look", '#define D0 99', '#include "nowhere.h"', '#error no', '#if 1/0', '"unterminated', '#unknown directive', "'", '/* #endif', '@ ` \\ $', '#undef D1', '#pragma once', '// #else', '\\', '#line 7 "q"', '#warning w', '# 3', '#', '"/*"', "'\"'", '#endif_', '# include']

    def group(depth, live):
        marker(live)
        k = rng.random()
        if k < .3 and depth:
            ifs(depth - 1, live)
            marker(live)
        if not live and rng.random() < .6:
            g = rng.choice(GARB)
            if g == '#if 1/0': out.extend([g, '#elif (', '#endif'])
            elif g == '/* #endif': out.append('/* #endif */')
            elif g == '\\': out.append('\\\n#define ZZ')
            else: out.append(g)
        if live and rng.random() < .2:
            n_ = 'D%d' % rng.randrange(6)
            if n_ in defs and rng.random() < .5:
                out.append('#undef ' + n_)
                del defs[n_]
            elif n_ not in defs:
                v = rng.randrange(50)
                out.append('#define %s %d' % (n_, v))
                defs[n_] = (v, False)

    def ifs(depth, live):
        form = rng.randrange(6)
        sp = rng.choice(['', '', ' ', '\t', '  '])
        h = '#' + sp
        if rng.random() < .1: h = rng.choice([' ', '\t', '/**/', ' /* x */ ']) + h
        if form == 0:
            n_ = rng.choice(['D0', 'D1', 'D2', 'NOPE'])
            neg = rng.random() < .5
            out.append('%s%s %s' % (h, 'ifndef' if neg else 'ifdef', n_))
            taken = (n_ in defs) != neg
        elif form == 1 and depth >= 0:
            t, v, u = ex()
            # the value itself, with its signedness
            val = '%d' % v if v >= 0 and not u else '%du' % v if u else '(-%d%s)' % (-v if v > -2**63 else 2**63 - 1, '' if v > -2**63 else ' - 1')
            out.append('%sif (%s) == %s' % (h, t, val))
            taken = True
        elif form == 2:
            t, v, u = ex()
            out.append('%sif ((%s) * 0 - 1 < 0) == %d' % (h, t, 0 if u else 1))
            taken = True
        else:
            t, v, u = ex()
            if rng.random() < .15 and ' ' in t:
                i = t.rindex(' ')
                t = t[:i] + '\\\n' + t[i:]
            if rng.random() < .15: t += rng.choice([' /* c */', ' // c', '/* a\n b */'])
            out.append('%sif %s' % (h, t))
            taken = bool(v)
        group(depth, live and taken)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if live and not taken:
                t, v, u = ex()
                tk = bool(v)
            else:
                t, v, u = rng.choice([('1/0', 1, 0), ('0', 0, 0), ('(1', 1, 0), ('', 0, 0), ('1', 1, 0)]) if live else ('1', 1, 0)
                tk = False
                if not live and rng.random() < .5: t = '('
            out.append('%selif %s' % (h, t))
            group(depth, live and not taken and tk)
            taken = taken or tk
        if rng.random() < .6:
            out.append(h + 'else' + rng.choice(['', '', ' ', ' /* c */']))
            group(depth, live and not taken)
        out.append(h + 'endif' + rng.choice(['', '', ' // c', ' /* x */']))
    deep = rng.choice([0, 0, rng.randrange(1, 50)])
    defs0 = len(out)
    for i in range(deep): out.append(rng.choice(['#if 1', '#ifndef NOT_DEFINED', '#ifdef D0', '#if 0\n"90000%d "\n#else' % i, '#if 0\n#elif 1']))
    while cnt[0] < n: ifs(4, True)
    for i in range(deep):
        if '#else' not in out[defs0 + deep - 1 - i] and rng.random() < .6: out += ['#else', '"91000%d "' % i]
        out.append('#endif')
    return '\n'.join(out) + '\n', exp


# ---- include trees ---------------------------------------------------------
def include_tree(rng):
    """({path: text}, options) ; every file contributes one string literal per inclusion"""
    dirs = ['.', 'd0', 'd1', 'd2', 'sys0', 'sys1', 'd0/s', 'd1/s', 's']
    names = ['h%d.h' % i for i in range(7)]
    files = {}
    present = {}
    for n in names:
        for d in dirs:
            if rng.random() < .45: present.setdefault(n, []).append(d)
        if n not in present: present[n] = ['d1']

    def body(d, n, k):
        t = []
        inc = []
        for _ in range(rng.choice([0, 1, 1, 2, 2])):
            if k + 1 < len(names): inc.append(include(rng, k + 1, names, 'R%d_%s' % (k, re.sub(r'\W', '_', d))))
        mark = '"%s/%s "' % (d, n)
        core = [mark] + inc
        if rng.random() < .3: core.append(mark.replace(' "', '$ "'))
        if rng.random() < .2: core.insert(0, '"%s"' % '" __FILE__ "' if False else '"L" STR2(__LINE__) " "')
        g = rng.randrange(8)
        gn = 'G_%s' % re.sub(r'\W', '_', n) if rng.random() < .5 else 'G_%s' % re.sub(r'\W', '_', d + n)
        if g == 0: core = ['#ifndef ' + gn, '#define ' + gn] + core + ['#endif']
        elif g == 1: core = ['/* c */', '#ifndef ' + gn, '#define ' + gn + ' 1'] + core + ['#endif /* %s */' % gn, '']
        elif g == 2: core = ['#ifndef ' + gn, '#define ' + gn] + core + ['#endif', '"after "']
        elif g == 3: core = ['#ifndef ' + gn, '#define ' + gn] + core + ['#else', '"again "', '#endif']
        elif g == 4: core = ['"before "', '#ifndef ' + gn, '#define ' + gn] + core + ['#endif']
        elif g == 5: core = ['#if !defined(%s)' % gn, '#define ' + gn] + core + ['#endif']
        elif g == 6: core = ['#ifndef ' + gn, '#define ' + gn] + core + ['#endif', '#ifndef %s_2' % gn, '#define %s_2' % gn, '"second "', '#endif']
        # bounded anyway
        return '\n'.join(core) + rng.choice(['\n', '\n', ''])

    for k, n in enumerate(names):
        for d in present[n]:
            files[(d + '/' if d != '.' else '') + n] = body(d, n, k)
    opts = []
    order = ['d0', 'd1', 'd2']
    rng.shuffle(order)
    for d in order[:rng.randrange(1, 4)]: opts.append(('I', d))
    sysd = ['sys0', 'sys1']
    rng.shuffle(sysd)
    for d in sysd[:rng.randrange(0, 3)]: opts.append(('isystem', d))
    main = ['#define STR1(x) #x', '#define STR2(x) STR1(x)', 'extern int puts(const char *);', 'const char *t = ""']
    for _ in range(rng.randrange(4, 9)):
        main.append(include(rng, rng.randrange(3), names, 'M%d' % len(main)))
        main.append('"| "')
        if rng.random() < .2: main.append('#undef G_%s' % re.sub(r'\W', '_', rng.choice(names)))
        if rng.random() < .2: main.append('#line %d "%s"' % (rng.randrange(1, 999), rng.choice(['d0/q.c', 's/main.c', 'main.c', 'd1/s/h1.h', 'zz.c'])))
    main.append('"";\nint main(void) { puts(t); return 0; }')
    files['main.c'] = '\n'.join(main) + '\n'
    return files, opts


def include(rng, k, names, uniq):
    n = names[rng.randrange(k, len(names))]
    if rng.random() < .2: n = 's/' + n
    elif rng.random() < .08: n = './' + n
    q = rng.random() < .5
    s = '"%s"' % n if q else '<%s>' % n
    c = ''
    r = rng.randrange(8)
    if r == 0: c = '#define %s %s\n#include %s' % (uniq, s, uniq)
    elif r == 1 and q: c = '#define %s %s\n#include STR2(%s)' % (uniq, n, uniq)
    elif r == 2: c = '# include %s // c' % s
    elif r == 3: c = '#include/**/%s' % s
    else: c = '#include %s' % s
    return '#if __has_include(%s)\n%s\n#endif' % (s, c)


# ---- lines, files, stacks ---------------------------------------------------
def line_program(rng, n=40):
    """uses of __LINE__, __FILE__, #line, push_macro, __COUNTER__, undef: C program printing them"""
    L = ['extern int printf(const char *, ...);', '#define S1(x) #x', '#define S2(x) S1(x)', '#define LN __LINE__', '#define FF(x) x', '#define CAT_(a,b) a##b', '#define CAT(a,b) CAT_(a,b)',
         'int main(void) {']
    stack = {}
    for i in range(n):
        k = rng.randrange(16)
        if k == 0: L.append('printf("%%d\\n", __LINE__);')
        elif k == 1: L.append('printf("%%s %%d\\n", __FILE__, LN);')
        elif k == 2: L.append('#line %d%s' % (rng.choice([1, 2, 100, 32767, rng.randrange(1, 60000)]), rng.choice(['', ' "f%d.c"' % i, ' "a b.h"'])))
        elif k == 3:
            L.append('#define LL%d %d "g%d.c"' % (i, rng.randrange(1, 5000), i))
            L.append('#line LL%d' % i)
        elif k == 4: L.append('printf("%%s\\n", S2(__LINE__) S1(__LINE__));')
        elif k == 5: L.append('/* a\n b\n c */ printf("%%d\\n", __LINE__);')
        elif k == 6: L.append('printf("%%d\\n", \\\n 7 \\\n );')
        elif k == 7: L.append('\n\n')
        elif k == 8:
            n_ = 'P%d' % rng.randrange(3)
            st = stack.setdefault(n_, [None])
            r = rng.randrange(5)
            if r == 0:
                L.append(rng.choice(['#pragma push_macro("%s")', '_Pragma("push_macro(\\"%s\\")")'][:1]) % n_)
                st.append(st[-1])
            elif r == 1 and len(st) > 1:
                L.append('#pragma pop_macro("%s")' % n_)
                st.pop()
            elif r == 2:
                L.append('#undef ' + n_)
                st[-1] = None
            else:
                L += ['#undef ' + n_, '#define %s %d' % (n_, i)]
                st[-1] = i
            L.append('printf("%%s\\n", S2(%s));' % n_)
        elif k == 9: L.append('{ int CAT(v, __LINE__) = %d; printf("%%d\\n", CAT(v, __LINE__)); }' % i)
        elif k == 10: L.append('printf("%%d %%d\\n", __COUNTER__, __COUNTER__);')
        elif k == 11: L.append(';')
        elif k == 12: L.append('# %d "x%d.c"' % (rng.randrange(1, 900), i))
        elif k == 13: L.append(rng.choice(['#', '# /* null */', '#pragma unknown thing', '#define OBJ%d' % i]))
        elif k == 14: L.append('printf("%%s%%d\\n", "a\\\nb", __LINE__);')
        else: L.append('#define R%d(x) [x] \\\n (x)\nprintf("%%s %%d\\n", S2(R%d(LN)), __LINE__);' % (i, i))
    L.append('return 0; }')
    return '\n'.join(l.replace('%%', '%') for l in L) + '\n'
