"""C23 path operations against an independent model, every buffer size, ASan."""
import os, re
from .. import core, build

RULE = ('A case is one path operation (normalize, join, join_multiple, absolute, relative, change root/basename/extension/segment, '
        'queries, intersection) on generated path text in the Unix or Windows style; output operations are repeated with every '
        'buffer size from 0 to length+2 and in place where documented. Non-trivial: the text has at least two separators or a dot segment.')
ASSUMPTIONS = ['relative paths are not asked from a base that leaves its start (".." not resolvable): the question has no answer',
               'in the Windows style the second operand of join/absolute carries no volume or share']

W = '\\/'


class Model:
    def __init__(s, win):
        s.seps = W if win else '/'
        s.sep = '\\' if win else '/'
        s.win = win

    def issep(s, c):
        return c != '' and c in s.seps

    def root(s, p):
        if not s.win:
            return 1 if p[:1] == '/' else 0
        if not p:
            return 0
        def sep(i):
            return i < len(p) and p[i] in s.seps
        def stop(i):
            while i < len(p) and p[i] not in s.seps:
                i += 1
            return i
        if sep(0):
            if not sep(1):
                return 1
            if p[2:3] in ('?', '.') and sep(3):
                return 4
            if p[2:3] in ('?', '.') and len(p) > 2:
                return None      # undocumented: \\.name or \\?name
            i = stop(2)
            while sep(i):
                i += 1
            i = stop(i)
            if sep(i):
                i += 1
            return i
        if p[1:2] == ':':
            return 3 if sep(2) else 2
        return 0

    def segs(s, p, start):
        out, i = [], start
        while i < len(p):
            if p[i] in s.seps:
                i += 1
                continue
            j = i
            while j < len(p) and p[j] not in s.seps:
                j += 1
            out.append((i, p[i:j]))
            i = j
        return out

    def resolve(s, names, absolute):
        st = []
        for n in names:
            if n[1] == '.':
                continue
            if n[1] == '..':
                if st and st[-1][1] != '..':
                    st.pop()
                elif not absolute:
                    st.append(n)
            else:
                st.append(n)
        return st

    def isabs(s, p):
        r = s.root(p)
        return r > 0 and p[r - 1] in s.seps

    def fixroot(s, r):
        return re.sub(r'[\\/]', lambda m: '\\', r) if s.win else r

    def multi(s, paths):
        r = s.root(paths[0])
        ab = s.isabs(paths[0])
        segs = [(0, n) for _, n in s.segs(paths[0], r)]
        for p in paths[1:]:
            segs += [(0, n) for _, n in s.segs(p, 0)]
        st = s.resolve(segs, ab)
        res = s.fixroot(paths[0][:r]) + s.sep.join(n for _, n in st)
        anyseg = bool(segs)
        if not res and anyseg:
            return '.'
        if not res:
            return res
        return res

    def eq(s, a, b):
        if s.win:
            f = lambda t: ''.join(c.lower() if c.isascii() else c for c in t.replace('/', '\\'))
            return f(a) == f(b)
        return a == b


ALPH = ['a', 'b', 'B', 'ab', 'foo', 'x.c', '.', '..', '...', '.h', 'a.b.c', '..x', 'x..', 'é', 'a b', 'lib.so.1', 'c.', '.tar.gz', '-', '*', 'q?']


def gen_path(rng, win, plain=False):
    seps = W if win else '/'
    def sep():
        t = rng.choice(seps)
        while rng.random() < .2:
            t += rng.choice(seps)
        return t
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 14])
    p = ''
    names = ALPH if not win else ALPH + ['\\'.join('ab')] if False else ALPH
    dots = rng.random()
    for i in range(n):
        if i:
            p += sep()
        p += rng.choice(['..', '.', 'a', 'b']) if rng.random() < dots * .6 else rng.choice(names)
    if not plain:
        k = rng.random()
        if k < .35:
            p = (rng.choice(seps) if win else sep()) + p
        elif win and k < .5:
            p = rng.choice(['C:', 'd:', 'C:\\', 'c:/']) + p
        elif win and k < .65:
            p = rng.choice(['\\\\srv\\share\\', '//srv/share/', '\\\\srv\\share', '\\\\?\\', '\\\\.\\', '\\\\srv\\\\sh/', '//S/t']) + p
    elif rng.random() < .2:
        p = (rng.choice(seps) if win else sep()) + p
    if p and rng.random() < .3:
        p += sep()
    if rng.random() < .03:
        p += '/' + 'n' * rng.choice([255, 500, 4000])
    if not win and rng.random() < .1:
        p = p.replace('a', 'a\\')
    return p


def expected(m, op, args):
    """expected answer of an output operation, None = not decided"""
    if any(m.root(a) is None for a in args[:2]):
        return None
    if op == 'n':
        return m.multi([args[0]])
    if op in 'jm':
        if args[0] == '' or not m.segs(args[0], m.root(args[0])):
            if m.win and any(m.root(a) not in (0, 1) for a in args[1:]):
                return None
        return m.multi(args)
    if op == 'a':
        base, p = args
        ps = [] if m.isabs(base) else [m.sep]
        ps += [p] if m.isabs(p) else [base, p]
        if m.win and len(ps) > 1 and any(m.root(x) > 1 for x in ps[1:]):
            return None
        return m.multi(ps)
    if op == 'r':
        b, p = args
        rb, rp = m.root(b), m.root(p)
        if rb != rp or not m.eq(b[:rb], p[:rp]):
            return ''
        ab = m.isabs(b)
        sb, sp = m.resolve(m.segs(b, rb), ab), m.resolve(m.segs(p, rp), ab)
        k = 0
        while k < len(sb) and k < len(sp) and m.eq(sb[k][1], sp[k][1]):
            k += 1
        if any(n == '..' for _, n in sb[k:]):
            return None
        return m.sep.join(['..'] * (len(sb) - k) + [n for _, n in sp[k:]]) or '.'
    if op == 'R':
        return args[1] + args[0][m.root(args[0]):]
    sg = m.segs(args[0], m.root(args[0]))
    if op == 'B':
        nb = args[1].strip(m.seps)
        if not sg:
            return args[0][:m.root(args[0])] + nb
        i, n = sg[-1]
        return args[0][:i] + nb + args[0][i + len(n):]
    if op == 'E':
        e = args[1] if args[1][:1] == '.' else '.' + args[1]
        if not sg:
            return args[0][:m.root(args[0])] + e
        i, n = sg[-1]
        d = n.rfind('.')
        stem = n if d < 0 else n[:d]
        return args[0][:i] + stem + e + args[0][i + len(n):]
    if op == 'S':
        if not sg:
            return ''
        i, n = sg[min(int(args[1]), len(sg) - 1)]
        return args[0][:i] + args[2].strip(m.seps) + args[0][i + len(n):]


def query(m, p):
    r = m.root(p)
    if r is None:
        return None
    sg = m.segs(p, r)
    ty = {'.': 1, '..': 2}
    last = sg[-1] if sg else None
    B = lambda t: len(t.encode())
    off = lambda i: B(p[:i])
    ab = m.isabs(p)
    e = None
    if last and '.' in last[1]:
        d = last[1].rfind('.')
        e = (last[0] + d, last[1][d:])
    f = ['%d:%d' % (off(i), B(n)) for i, n in sg]
    return 'root=%d abs=%d rel=%d dir=%d base=%s ext=%s has=%d segs=%s|%s|%s' % (
        B(p[:r]), ab, not ab, off(last[0]) if last else 0, f[-1] if last else '-1:0',
        '%d:%d' % (off(e[0]), B(e[1])) if e else '-1:0', bool(e),
        ''.join('%s:%d,' % (x, ty.get(n, 0)) for x, (i, n) in zip(f, sg)),
        ''.join(x + ',' for x in reversed(f)), f[-1] if last else '-1:0')


def intersect(m, a, b):
    ra, rb = m.root(a), m.root(b)
    if ra is None or rb is None:
        return None
    if ra != rb or not m.eq(a[:ra], b[:rb]):
        return 0
    ab = m.isabs(a)
    sa, sb = m.resolve(m.segs(a, ra), ab), m.resolve(m.segs(b, rb), ab)
    end = ra
    for (i, x), (j, y) in zip(sa, sb):
        if not m.eq(x, y):
            break
        end = i + len(x)
    return len(a[:end].encode())


def check(ctx):
    src = os.path.join(core.REPO, 'src')
    exe = build.cc(ctx, os.path.join(ctx.dir, 'cwalk'), [os.path.join(core.VERIF, 'harness/cwalk_h.c'), os.path.join(src, 'cwalk.c')],
                   ['-g', '-O1', '-I' + src, '-fno-omit-frame-pointer'] + build.SAN.split())
    hx = lambda t: '-' + t.encode().hex()
    batches = ctx.n(16, 200)
    per = 3000

    def one(bi):
        rng = ctx.rand('batch', bi)
        cases, lines = [], []
        for k in range(per):
            win = rng.random() < .3
            m = Model(win)
            op = rng.choice('nnnjjjaarrmRBEESqqqqiig')
            if op == 'm':
                args = [gen_path(rng, win)] + [gen_path(rng, win, True) for _ in range(rng.randrange(0, 4))]
            elif op in 'ja':
                args = [gen_path(rng, win), gen_path(rng, win, plain=rng.random() < .6)]
            elif op in 'ri':
                a = gen_path(rng, win)
                b = gen_path(rng, win)
                if rng.random() < .7:
                    c = gen_path(rng, win)
                    a, b = c + (m.sep if c else '') + a.lstrip(m.seps), c + (m.sep if c else '') + b.lstrip(m.seps)
                    if win and rng.random() < .5:
                        b = ''.join(c.swapcase() if c.isascii() else c for c in b)
                args = [a, b]
            elif op == 'R':
                args = [gen_path(rng, win), rng.choice(['', '/', 'C:\\', 'abc/', '/x'])]
            elif op == 'B':
                args = [gen_path(rng, win), rng.choice(['', 'n', '/n/', 'longer-name.txt', '..', 'a/b'])]
            elif op == 'E':
                args = [gen_path(rng, win), rng.choice(['', 'c', '.o', '.tar.gz', 'cpp', 'x' * 40])]
            elif op == 'S':
                args = [gen_path(rng, win), str(rng.randrange(6)), rng.choice(['', 'n', '/n/', 'longer-name.txt', '..'])]
            else:
                args = [gen_path(rng, win)]
            st = 'w' if win else 'u'
            line = '%s %s %s' % (op, st, ' '.join(map(hx, args)))
            cases.append((op, win, args, line))
            lines.append(line)
        r = core.run_wd([exe], input=('\n'.join(lines) + '\n').encode(), timeout=60,
                        env=dict(os.environ, ASAN_OPTIONS='detect_leaks=1'))
        got = r.text.splitlines()
        if r.rc != 0 or r.timeout or len(got) != len(cases):
            rep = core.san_report(r.err) or r.brief(500)
            k = len(got)
            c = cases[k] if k < len(cases) else ('?', 0, [], '')
            ctx.violation('%s/%s' % (c[0], core.san_key(r.err) if core.san_report(r.err) else ('hang' if r.timeout else 'abort')),
                          'operation %s %r (windows=%s): %s\n%s' % (c[0], c[2], c[1], rep, r.etext[:2500]), {'input.txt': '\n'.join(lines)})
            return
        for (op, win, args, line), g in zip(cases, got):
            ctx.case((op, win, tuple(args)), nontrivial=sum(a.count('/') + a.count('\\') for a in args) >= 2 or any('.' in a for a in args))
            ctx.obs('op_' + op)
            m = Model(win)
            if g.startswith('BAD'):
                ctx.violation('%s/buffer' % op, '%s %r windows=%s: %s' % (op, args, win, g), {'line': line})
                continue
            g = g[3:]
            if op == 'q':
                w = query(m, args[0])
            elif op == 'i':
                w = intersect(m, *args)
                w = None if w is None else str(w)
            elif op == 'g':
                continue
            else:
                w = expected(m, op, args)
                try:
                    g = bytes.fromhex(g).decode()
                except UnicodeDecodeError:
                    g = repr(bytes.fromhex(g))
            if w is None:
                ctx.obs('undecided')
                continue
            if g != w:
                ctx.violation('%s/result' % op, '%s %r windows=%s\n got  %r\n want %r' % (op, args, win, g, w), {'line': line})
            ctx.distinct('answers', g)
        ctx.sample({'op': cases[0][0], 'windows': cases[0][1], 'args': cases[0][2], 'got': got[0]})
    core.pmap(one, range(batches))
