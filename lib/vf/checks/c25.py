"""C25: compiler-style options are honoured and tolerated flags change nothing."""
import os, re, shutil
from .. import core, build
from ..core import run, run_wd

RULE = ('A case is one command line: a random set of -D, -I, -L, -l, -e, -o, -c, -C options and CFLAGS, permuted against the files, joined or separated, with tolerated flags '
        'strewn in; the program reports every macro, the directory every header and library came from, its entry and words, and the report, exit status and files written are '
        'compared with a model of the documented options. Non-trivial: at least two options.')
ASSUMPTIONS = ['-D values are identifiers or numbers (others are refused by design)', '-C and CFLAGS are not combined']

TOLERATED = ['-O', '-O0', '-O1', '-O2', '-O3', '-Os', '-Ofast', '-Og', '-W', '-Wall', '-Wextra', '-Werror', '-Wno-unused', '-Wl', '-Wmissing-prototypes', '-fPIC', '-fpic', '-fno-strict-aliasing', '-fvisibility=hidden',
             '-fno-common', '-fcommon', '-fsanitize=address', '-f0', '-g', '-g0', '-g3', '-ggdb', '-gdwarf-4', '-MD', '-MMD', '-MP', '-M', '-MG', '-s', '-shared', '-static-libgcc', '-pedantic']
MACROS = ['ALPHA', 'BETA', '_G', 'd1', 'O2', 'Wall', 'shared', 'NDEBUG', 'x', 'L', 'Z9_']
VALUES = ['1', '0', '42', 'word', 'a_b', '0x1F', '077', 'ALPHA2', '_', '9999999999', 'g', 'O3']
HEADERS = ['one.h', 'two.h', 'sub/three.h', 'errno.h', 'g.h']
LIBS = ['va', 'vb', 'g', 'O2x']


def cident(s):
    return re.sub(r'\W', '_', s)


class Conf:
    def __init__(self, r):
        self.r = r
        self.defs = [(m, r.choice([None, None, ''] + VALUES * 2) if r.random() < .9 else None) for m in r.sample(MACROS, r.randrange(0, 6))]
        if self.defs and r.random() < .2: self.defs.append((self.defs[0][0], r.choice(VALUES)))
        self.incs = r.sample(['inc0', 'inc1', 'in c2', './inc3', 'gdir', 'O2', 'fdir/deep', '-Odir'], r.randrange(0, 5))
        self.has = {d: [h for h in HEADERS if r.random() < .5] for d in self.incs}
        self.libs = r.sample(LIBS, r.randrange(0, 3))
        self.lpaths = r.sample(['lib0', 'lib1', './lib2', 'Wdir', 'li b3'], r.randrange(1, 4)) if self.libs else []
        self.lhas = {d: [l for l in LIBS if r.random() < .6] for d in self.lpaths}
        for l in self.libs:
            if not any(l in self.lhas[d] for d in self.lpaths): self.lhas[r.choice(self.lpaths)].append(l)
        self.nsrc = r.choice([1, 1, 2, 3])
        self.entry = r.choice([None, None, 'alt', 'go', 'f2', 'O2main'])
        self.out = None
        self.obj = False
        k = r.random()
        if k < .25: self.out, self.entry = r.choice(['prog', 'out dir/prog.exe', './p', 'gprog', 'c.out', 'w.o']), None
        elif k < .45: self.obj, self.nsrc, self.entry = True, 1, None
        self.objout = r.choice([None, 'named.o', 'd/x.o', 'noext', 'g.obj']) if self.obj else None
        self.flags, self.fdefs, self.finc = None, [], None
        if r.random() < .45:
            self.flags = r.choice(['C', 'C', 'env'])
            self.fdefs = [(m, r.choice(['7', 'seven', None])) for m in r.sample(['FA', 'FB', 'FC'], r.randrange(1, 3))]
            if r.random() < .5:
                self.finc = 'flaginc'
                self.has['flaginc'] = [h for h in HEADERS if r.random() < .6]
        self.stdin = r.random() < .15 and not self.obj
        self.words = r.choice([[], [], ['a', '-O2', 'b c'], ['-DALPHA=5', '-I', 'x', '-lva', '--']])
        self.alldefs = [m for m, v in self.defs] + [m for m, v in self.fdefs]

    # what the program reports
    def macro(self, m):
        v = 'undefined'
        for n, x in self.defs + self.fdefs:
            if n == m: v = '1' if x is None else x
        return v

    def header(self, h):
        for d in self.incs + ([self.finc] if self.finc else []):
            if h in self.has[d]: return d
        return 'system' if h == 'errno.h' else None

    def lib(self, l):
        for d in self.lpaths:
            if l in self.lhas[d]: return d

    def expected(self):
        out = []
        for i in range(self.nsrc):
            for m in MACROS + ['FA', 'FB', 'FC', 'UNSET']:
                # the value goes through macro expansion as a #define does
                v, seen = self.macro(m), {m}
                while v in self.alldefs and v not in seen:
                    seen.add(v)
                    v = self.macro(v)
                out.append('%d %s=%s' % (i, m, '[%s]' % v if self.macro(m) != 'undefined' else 'undefined'))
            for h in HEADERS:
                if self.header(h): out.append('%d <%s> %s' % (i, h, self.header(h)))
        for l in self.libs: out.append('lib %s %s' % (l, self.lib(l)))
        out.append('entry %s' % (self.entry or 'main'))
        out += ['arg %s' % w for w in self.words]
        return '\n'.join(out) + '\n'

    def source(self, i):
        t = ['extern int printf(const char *, ...);', '#define S_(...) #__VA_ARGS__', '#define S(...) S_(__VA_ARGS__)']
        for h in HEADERS:
            if self.header(h): t.append('#undef FROM\n#include <%s>\n#ifdef FROM\nstatic const char from_%s[] = FROM;\n#else\nstatic const char from_%s[] = "system";\n#endif' % (h, cident(h), cident(h)))
        t.append('void show%d(void)\n{' % i)
        for m in MACROS + ['FA', 'FB', 'FC', 'UNSET']:
            t.append('#ifdef %s\n    printf("%%d %%s=[%%s]\\n", %d, "%s", S(%s));\n#else\n    printf("%%d %%s=undefined\\n", %d, "%s");\n#endif' % (m, i, m, m, i, m))
        for h in HEADERS:
            if self.header(h): t.append('    printf("%d <%s> %%s\\n", from_%s);' % (i, h, cident(h)))
        t.append('}')
        if i == 0 and not self.obj: t.append(self.mainpart())
        return '\n'.join(t) + '\n'

    def mainpart(self):
        t = []
        for l in self.libs: t.append('const char *from_lib_%s(void);' % cident(l))
        t += ['void show%d(void);' % i for i in range(self.nsrc)]
        t.append('extern int printf(const char *, ...);\nstatic int run_(const char *e, int c_, char **v_)\n{\n    int i_;')
        t += ['    show%d();' % i for i in range(self.nsrc)]
        for l in self.libs: t.append('    printf("lib %s %%s\\n", from_lib_%s());' % (l, cident(l)))
        t.append('    printf("entry %s\\n", e);\n    for (i_ = 1; i_ < c_; i_++) printf("arg %s\\n", v_[i_]);\n    return 40 + c_;\n}')
        for e in ('main', 'alt', 'go', 'f2', 'O2main'): t.append('int %s(int c_, char **v_) { return run_("%s", c_, v_); }' % (e, e))
        return '\n'.join(t)


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = build.build(ctx, 'plain')
        self.b.warm()
        self.dir = ctx.sub('opts')
        self.env = self.b.env()
        # one shared object per (library, directory): the marker is patched in
        self.so = {}
        for l in LIBS:
            t = 'const char *from_lib_%s(void) { return "@@@@@@@@@@@@@@@"; }\n' % cident(l)
            p = os.path.join(self.dir, l)
            open(p + '.c', 'w').write(t)
            q = run(['gcc', '-w', '-shared', '-fPIC', '-o', p + '.so', p + '.c'])
            if q.rc: raise core.HarnessError(q.etext[:300])
            self.so[l] = open(p + '.so', 'rb').read()

    def one(self, k):
        ctx = self.ctx
        r = ctx.rand('opt', k)
        c = Conf(r)
        d = os.path.join(self.dir, 'c%d' % k)
        os.makedirs(d)
        for i in c.has:
            for h in HEADERS:
                p = os.path.join(d, i, h)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if h in c.has[i]: open(p, 'w').write('#define FROM "%s"\n' % i)
        for l in c.lpaths:
            os.makedirs(os.path.join(d, l), exist_ok=True)
            for n in c.lhas[l]:
                open(os.path.join(d, l, 'lib%s.so' % n), 'wb').write(self.so[n].replace(b'@@@@@@@@@@@@@@@', l.encode().ljust(15, b'\0')))
        for f in (c.out, c.objout):
            if f and '/' in f: os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        names = ['m.c', 'gsrc.c', 'O2.c'][:c.nsrc]
        srcs = {}
        for i, n in enumerate(names):
            srcs[n] = c.source(i)
            open(os.path.join(d, n), 'w').write(srcs[n])
        want = c.expected()
        for v in range(3 if ctx.quick else 6):
            cmd, extra, inp = self.line(r, c, names, srcs)
            env = dict(self.env)
            if c.flags == 'env': env['CFLAGS'] = self.flagtext(r, c)
            before = self.tree(d)
            res = run_wd([self.b.cjit] + cmd, cwd=d, env=env, timeout=20, input=inp)
            ctx.case('c%d/%d' % (k, v), nontrivial=len(cmd) - len(names) > 1)
            ctx.obs('command_lines')
            ctx.obs('tolerated_flags', extra)
            ctx.obs('options', len(cmd))
            made = sorted(set(self.tree(d)) - set(before))
            msg = None
            if res.timeout: msg = 'does not end'
            elif c.obj:
                o = c.objout or 'm.o'
                if res.rc != 0: msg = 'status %s: %s' % (res.rc, res.etext[-300:])
                elif res.out: msg = 'prints %r' % res.out[:100]
                elif made != [os.path.normpath(o)]: msg = 'writes %s instead of %s' % (made, o)
                else:
                    open(os.path.join(d, 'main.c'), 'w').write(c.mainpart())
                    os.rename(os.path.join(d, o), os.path.join(d, 'the.o'))
                    res = run_wd([self.b.cjit, '-q', 'main.c', 'the.o'] + sum([['-L', l] for l in c.lpaths], []) + ['-l' + l for l in c.libs] + ['--'] + c.words, cwd=d, env=self.env, timeout=20)
                    made = ['the.o', 'main.c']
            elif c.out:
                o = os.path.normpath(c.out)
                if res.rc != 0: msg = 'status %s: %s' % (res.rc, res.etext[-300:])
                elif res.out: msg = 'prints %r' % res.out[:100]
                elif made != [o]: msg = 'writes %s instead of %s' % (made, o)
                else: res = run_wd(['./' + o] + c.words, cwd=d, env=dict(self.env, LD_LIBRARY_PATH=':'.join(os.path.join(d, l) for l in c.lpaths)), timeout=20)
            elif made: msg = 'leaves files: %s' % made
            for m in made:
                if os.path.exists(os.path.join(d, m)): os.unlink(os.path.join(d, m))
            if not msg:
                ctx.obs('report_lines', want.count('\n'))
                out = res.text
                if out != want:
                    for x, y in zip(want.split('\n') + ['<end>'], out.split('\n') + ['<end>']):
                        if x != y:
                            msg = 'reports "%s" instead of "%s" (status %s, %s)' % (y[:100], x[:100], res.rc, res.etext[-200:])
                            break
                elif res.rc != 41 + len(c.words): msg = 'status %s instead of %d' % (res.rc, 41 + len(c.words))
            if msg:
                ctx.violation('c%d-%d' % (k, v), 'cjit %s: %s' % (' '.join(map(repr, cmd)), msg), dict(srcs, **{'command.txt': repr([self.b.cjit] + cmd) + '\nCFLAGS=' + env.get('CFLAGS', '') + '\n', 'expected.txt': want, 'got.txt': res.out, 'stderr.txt': res.err}))
                break
        shutil.rmtree(d)

    def tree(self, d):
        return [os.path.relpath(os.path.join(a, f), d) for a, b, fs in os.walk(d) for f in fs]

    def flagtext(self, r, c):
        w = ['-D%s' % m if v is None else '-D%s=%s' % (m, v) for m, v in c.fdefs]
        if c.finc: w.append('-I%s' % c.finc)
        r.shuffle(w)
        if r.random() < .3: w.insert(r.randrange(len(w) + 1), r.choice(['-w', '-O2', '-Wall']))
        return ' '.join(w)

    def line(self, r, c, names, srcs):
        # groups that keep their own order, merged at random
        def opt(o, v):
            # an empty word cannot be joined; a dash at the start is taken as a value too
            return [o + v] if r.random() < .5 else [o, v]
        seqs = [[opt('-D', m if v is None else '%s=%s' % (m, v)) for m, v in c.defs],
                [opt('-I', i) for i in c.incs],
                [opt('-L', l) for l in c.lpaths],
                [opt('-l', l) for l in c.libs]]
        if c.libs and r.random() < .2: seqs.append([opt('-l', r.choice(c.libs))])
        if c.entry: seqs.append(([opt('-e', 'nosuch')] if r.random() < .2 else []) + [opt('-e', c.entry)])
        if c.out: seqs.append(([opt('-o', 'first.out')] if r.random() < .2 else []) + [opt('-o', c.out)])
        if c.obj: seqs.append([['-c']])
        if c.objout: seqs.append([opt('-o', c.objout)])
        if c.flags == 'C':
            # what -C carries takes its place in the line: behind the other -I, as the model has it
            t = self.flagtext(r, c)
            g = [opt('-C', t)] if r.random() < .7 or ' ' not in t else [opt('-C', w) for w in t.split(' ')]
            if c.finc: seqs[1] += g
            else: seqs.append(g)
        fl, inp = [[n] for n in names], None
        if c.stdin:
            j = r.randrange(len(names))
            inp = srcs[names[j]].encode()
            fl[j] = ['-']
            if len(names) == 1 and r.random() < .5: fl = []
        r.shuffle(fl)
        seqs.append(fl)
        n = r.choice([0, 0, 1, 3, 8])
        seqs.append([[r.choice(TOLERATED)] if r.random() < .85 else [r.choice(['-MF', '-MT', '-MQ']), r.choice(['dep.d', 'm.c', 'm.o', 'lib', '$(x)'])] for i in range(n)])
        if r.random() < .3: seqs.append([[r.choice(['-q', '--verb', '-q'])]])
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            s = r.choice(seqs)
            out += s.pop(0)
            seqs = [s for s in seqs if s]
        if c.words and not c.out and not c.obj: out += ['--'] + c.words
        elif r.random() < .1 and not c.out and not c.obj: out += ['--']
        return out, n, inp


def check(ctx):
    c = Check(ctx)
    core.pmap(c.one, range(ctx.n(330, 5000)))
